#!/usr/bin/env python3
"""Static checks of ruler's semantic properties.

  run.py setup                 build the MIR extractor and lower the current tree once
  run.py check P01 [--thorough]
  run.py all [--brief]         every property against the current tree (development)
  run.py facts --out DIR [--spec]
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(200000)
import extract  # noqa: E402


def build():
    import facts as FX
    import refs
    import obligations
    d = extract.facts()
    F = FX.load(d, repo=extract.REPO, crates=("ruler", "bvwit"))
    G = refs.load_ref()
    P = refs.Pairing(F, G)
    return F, G, P, obligations.Checker(F, G, P)


def known():
    """findings listed in known_findings.jsonl: {(property, key)}"""
    p = os.path.join(HERE, "known_findings.txt")
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l[9:].split(" ", 2)[:2])
                r[(f["property"], f["key"])] = l.split(" ", 3)[3] if l.count(" ") > 2 else ""
    return r


def check(pid, thorough=False, ctx=None, quiet=False):
    import props
    t0 = time.time()
    F, G, P, C = ctx or build()
    p = props.PROPS[pid]
    res = props.decide(p, F, G, P, C, thorough)
    kn = known()
    viol, found = [], []
    for o in res:
        if o["status"] == "violation":
            (found if (pid, o["key"]) in kn else viol).append(o)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    n = lambda s: sum(1 for o in res if o["status"] == s)   # noqa: E731
    cov = {
        "explanation": p["how"],
        "obligations": len(res),
        "discharged": n("held"),
        "undecided": n("undecided"),
        "violated": n("violation"),
        "functions_analysed": sorted({f for o in res for f in o.get("functions", [])}),
        "paths_compared": sum(o.get("outs", 0) for o in res),
        "loops_summarised": sum(o.get("loops", 0) for o in res),
        "call_sites_resolved": sum(o.get("calls", 0) for o in res),
        "abort_sites": sum(o.get("panics", 0) for o in res),
        "bodies_in_fact_base": len(F.bodies),
        "rules": [{k: o[k] for k in ("rule", "what", "status", "detail", "where") if o.get(k)} for o in res],
    }
    doc = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "level": "other", "coverage": cov,
           "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    if not quiet:
        print("%s: %s" % (pid, p["title"]))
        print("  %d obligations over %d functions: %d discharged, %d undecided, %d violated (%.1f s)" % (
            len(res), len(cov["functions_analysed"]), n("held"), n("undecided"), n("violation"), time.time() - t0))
        for o in res:
            if o["status"] != "held":
                print("  [%s] %s: %s%s" % (o["status"], o["rule"], o["what"], (" -- " + o["detail"]) if o.get("detail") else ""))
    for o in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, o["what"]))
    if viol:
        rp = os.path.join("evidence", pid + ".violation.txt")
        with open(os.path.join(HERE, rp), "w") as f:
            for o in viol:
                f.write("rule: %s\nconstruct: %s\nat: %s\n%s\n\n" % (o["rule"], o["what"], o.get("where", ""), o.get("report", o.get("detail", ""))))
        if not quiet:
            for o in viol:
                print(o.get("report", ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main(a):
    if a[:1] == ["setup"]:
        extract.facts()
        return 0
    if a[:1] == ["facts"]:
        print(extract.facts(out=os.path.abspath(a[a.index("--out") + 1]), spec="--spec" in a))
        return 0
    if a[:1] == ["all"]:
        import props
        ctx = build()
        bad = []
        for pid in props.PROPS:
            if check(pid, ctx=ctx, quiet="--brief" in a):
                bad.append(pid)
        print("violated:", " ".join(bad) or "none")
        return 1 if bad else 0
    if a[:1] == ["check"]:
        return check(a[1], "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough")
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except extract.ExtractError as e:
        print("the tree under analysis could not be lowered:\n%s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
