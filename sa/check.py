"""Check runner: obligations, violations, known findings, evidence."""
import json, os, sys, time, importlib, traceback
import core
from core import AnalysisError, VERIF


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []          # (rule, where, ok, message, key)
        self.facts = {}
        self.assumptions = []
        self.programs = {}

    def ob(self, rule, where, ok, message="", key=None):
        """one obligation of a rule at a place; key identifies it for the known-findings file"""
        self.obs.append((rule, where, bool(ok), message, (key or "%s@%s" % (rule, where)).replace(" ", "_")))
        return ok

    def fact(self, k, v):
        self.facts[k] = v

    def count(self, k, n=1):
        self.facts[k] = self.facts.get(k, 0) + n

    def need(self, cond, what):
        """an anchor the analysis cannot do without"""
        if not cond:
            raise AnalysisError("anchor not found: " + what)

    def minimum(self, rule, n):
        k = sum(1 for o in self.obs if o[0] == rule)
        if k < n:
            raise AnalysisError("rule %s matched %d places, expected at least %d" % (rule, k, n))


def load_known():
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<key> <what>
                parts = line[len("finding: "):].split(" ", 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                res.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ""
    return res


def run(pid, tier):
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    ck = Check(pid, tier)
    cfgs = list(getattr(mod, "CONFIGS", ["thread"]))
    if tier == "thorough":
        cfgs += [c for c in getattr(mod, "THOROUGH_CONFIGS", []) if c not in cfgs]
    for c in cfgs:
        ck.config = c
        jobs = mod.jobs(c) if hasattr(mod, "jobs") else mod.JOBS
        prog = core.analyse(jobs, c, getattr(mod, "UNITS", None))
        ck.prog = prog
        mod.check(ck, prog)
        ck.count("functions_flattened", sum(len(v) for v in prog.jobs.values()))
        ck.fact("translation_units", len(prog.units))
    if all(o[2] for o in ck.obs):
        for r, n in getattr(mod, "MINIMUM", {}).items():
            ck.minimum(r, n)
    if not ck.obs:
        raise AnalysisError("no obligations")
    known = load_known().get(pid, {})
    bad = {}
    for rule, where, ok, msg, key in ck.obs:
        if not ok:
            bad.setdefault(key, (rule, where, msg))
    new = {k: v for k, v in bad.items() if k not in known}
    for k in sorted(bad):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, bad[k][2] or known[k]))
    rules = {}
    for rule, where, ok, msg, key in ck.obs:
        r = rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += ok
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION.strip(),
            "obligations": len(ck.obs), "discharged": sum(1 for o in ck.obs if o[2]),
            "rules": {r: {"instances": a, "holding": b} for r, (a, b) in sorted(rules.items())},
            "configurations": cfgs,
            "samples": sorted({"%s @ %s" % (o[0], o[1]) for o in ck.obs})[:60],
            "facts": ck.facts,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ck.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, (rule, where, msg) in sorted(new.items()):
                f.write("rule: %s\nwhere: %s\nwhat: %s\nkey: %s\n\n" % (rule, where, msg, k))
        for k, (rule, where, msg) in sorted(new.items()):
            print("  [%s] %s: %s   (key %s)" % (rule, where, msg, k))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, len(ck.obs), time.time() - t0))
    return 0


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    try:
        rc = run(pid, tier)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        rc = 4
    sys.exit(rc)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
