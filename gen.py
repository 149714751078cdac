#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import props  # noqa: E402
import notclaimed  # noqa: E402

TECH = {
    "eq": "abstract interpretation of MIR to gated value-flow summaries, compared in normal form with reference semantics",
    "lint": "repository-specific dataflow and call-site rules on type-resolved MIR",
}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in list(props.PROPS.items()) + list(notclaimed.PROPS.items()):
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "hook_needed": None}}) + "\n")
checks = []
for pid, p in props.PROPS.items():
    kinds = sorted({k for k, _ in p["obligations"]})
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py check " + pid,
        "thorough_cmd": "python3 run.py check %s --thorough" % pid,
        "technique": "; ".join(TECH[k] for k in kinds),
        "level": "other",
        "level_note": "Decided statically for all inputs over %d obligations: each listed function of the current source is reduced "
                      "to a path-complete symbolic value-flow summary and must equal the summary of its reference semantics%s. "
                      "An obligation whose code leaves the modelled fragment is reported as undecided, not as held. Trusts: rustc's "
                      "MIR, the models of std/egg/indexmap operations, and the reading of the reference."
                      % (len(p["obligations"]), "; the listed call-site rules must hold at every site" if "lint" in kinds else ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in notclaimed.PROPS.items()],
    "notes": "No hooks in /repo. Checks only type-check /repo's current source (cargo check with a MIR extractor as rustc wrapper); "
             "nothing of ruler is executed. known_findings.txt lists the repaired defects.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


def fill(t, tag, body):
    i, j = t.index("<!-- %s -->" % tag) + len(tag) + 9, t.index("<!-- /%s -->" % tag)
    return t[:i] + "\n" + body + t[j:]


rows = "| property | rules | functions compared |\n|---|---|---|\n"
for pid, p in props.PROPS.items():
    fns = []
    for k, n in p["obligations"]:
        n = n.replace("Bv<4>", "Bv<4,32,64,128>")
        if k == "eq" and n not in fns and not n.startswith(("Bv<32>", "Bv<64>", "Bv<128>")):
            fns.append(n)
    rows += "| %s %s | %s | %s |\n" % (pid, p["title"], ", ".join(n for k, n in p["obligations"] if k == "lint"), "; ".join(fns))
na = "".join("* **%s %s.** %s\n" % (pid, p["title"], p["reason"]) for pid, p in notclaimed.PROPS.items())
dp = os.path.join(HERE, "DESIGN.md")
d = open(dp).read()
open(dp, "w").write(fill(fill(d, "table", rows), "na", na))
