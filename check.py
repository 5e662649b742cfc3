#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current source.

exit 0: held (or undecided parts, listed in the evidence); 1: VIOLATION printed; 2: the analysis itself is broken."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "engine"), os.path.join(HERE, "spec")]
sys.setrecursionlimit(20000)
import ir, props


class Report:
    """what one analysis found"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []      # dict(rule, where, instance, what)
        self.coverage = {}
        self.assumptions = []
        self.notes = []

    def violation(self, rule, where, instance, what):
        self.violations.append({"rule": rule, "where": where, "instance": instance, "what": what})


def functional(rep, p, mod, opts):
    import functional as F
    from hints import HINTS
    thorough = rep.tier == "thorough"
    if p.get("probe"):
        err = mod.rejected.get(p["probe"])
        if err:
            rep.violation("the macros can be instantiated", p["files"][0], p["probe"], "the compiler rejects an instantiation: " + err[:600])
            return
    n, budget = (400, 150) if thorough else (120, 45)
    names = p["fns"]
    res = F.run(mod, names, HINTS, n=n, budget=budget, seed=rep.seed, cross=thorough, kinds=p.get("kinds"))
    kinds = {"PROVED": [], "PROVED-VALUE": [], "UNDECIDED": [], "ABSENT": [], "REFUTED": [], "ERROR": []}
    for r in res:
        kinds[r.status].append(r)
    if len(kinds["ABSENT"]) == len(names):
        raise ir.AnalysisError("none of the property's functions exists any more")
    api = public_names(mod)
    for r in kinds["ABSENT"]:
        if r.fn in api:
            raise ir.AnalysisError("anchor lost: %s is declared but not defined" % r.fn)
    for r in kinds["ERROR"]:
        rep.notes.append("%s: analysis gave up: %s" % (r.fn, r.what))
    for r in kinds["REFUTED"]:
        if p.get("kinds") is None and r.kind == "accepts" and "then:" not in r.what:
            rep.notes.append("%s (%s): %s [decided by the precondition property]" % (r.fn, r.loc, r.what))
            continue
        if r.fn.startswith("vector_") and "__" in r.fn:
            r.loc = macro_at(mod, "modules/core/include/c_include/vector.h", r.fn)
        rep.violation(p.get("frule", "extracted relation differs from the reference definition"), r.loc, r.fn, r.what)
    rep.coverage.update({
        "explanation": "Functions whose extracted memory relation was compared with the reference definition's; 'proved' are normal-form equal for all shapes and contents, "
                       "'undecided' have normal forms that differ while no separating valuation was found (no claim is made for them).",
        "rule": p.get("fcover") or "for every listed function: normal form of its effects (stores, block copies, calls, return, preconditions) = normal form of the reference definition's",
        "functions": len(names),
        "effect_records_compared": sum(r.nrec for r in res),
        "proved": sorted(r.fn for r in kinds["PROVED"]),
        "proved_values_only": sorted(r.fn for r in kinds["PROVED-VALUE"]),
        "undecided": {r.fn: {"first_difference": (r.detail[0][:300] if r.detail else ""), "valuations_compared": r.stats.get("compared", 0), "stopped": r.stats.get("stopped")} for r in kinds["UNDECIDED"]},
        "absent": sorted(r.fn for r in kinds["ABSENT"]),
        "gave_up": sorted(r.fn for r in kinds["ERROR"]),
        "valuations_compared": sum(r.stats.get("compared", 0) for r in res),
        "units": len(mod.sources),
    })
    rep.assumptions += ["real arithmetic for floating point (terms compared as polynomials)", "no overflow of int and size computations",
                        "different pointer arguments do not overlap", "allocations succeed", "clang 18 front end with the build's defines"]


def public_names(mod):
    import own
    return own.public(mod)


def macro_at(mod, path, fn):
    """where the macro a probe instantiates is defined"""
    name = fn.split("__")[0]
    try:
        for k, l in enumerate(open(os.path.join(mod.repo, path), encoding="latin1"), 1):
            if l.startswith("#define") and l.split()[1].split("(")[0] == name:
                return "%s:%d" % (path, k)
    except OSError:
        pass
    return path


def known(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == pid and k.get("state") == "open"]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    p = next((x for x in props.PROPS if x["id"] == pid), None)
    if p is None:
        print("unknown property", pid)
        return 2
    t0 = time.time()
    rep = Report(pid, tier, seed)
    err = None
    try:
        mod = ir.load()
        if p.get("fns"):
            functional(rep, p, mod, {})
        if p.get("rule"):
            import importlib
            m, fn = p["rule"].rsplit(".", 1)
            getattr(importlib.import_module(m), fn)(rep, p, mod)
    except ir.AnalysisError as e:
        err = "analysis broken: %s" % e
    except Exception as e:
        err = "analysis broken: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "other"), "coverage": rep.coverage or {"explanation": err or "nothing"},
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "notes": rep.notes}
    alarms, listed = [], []
    kf = known(pid)
    for v in rep.violations:
        k = next((k for k in kf if k["instance"] == v["instance"] and k["match"] in v["what"]), None)
        (listed if k else alarms).append((v, k))
    ev["violations"] = len(alarms)
    ev["coverage"]["known_findings"] = [v["instance"] for v, _ in listed]
    if alarms:
        ev["coverage"]["violation_list"] = [v for v, _ in alarms]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for n in rep.notes:
        print("note:", n)
    for v, k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if err:
        print(err)
        return 2
    if alarms:
        for v, _ in alarms:
            print("%s: [%s] %s: %s" % (v["where"], v["rule"], v["instance"], v["what"]))
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump([v for v, _ in alarms], f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    c = ev["coverage"]
    print("%s holds on what was analysed (%s): %s" % (pid, tier, ", ".join("%s=%s" % (k, len(v) if isinstance(v, (list, dict)) else v) for k, v in c.items() if k not in ("explanation", "rule") and isinstance(v, (int, list, dict)))))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
