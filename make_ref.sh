#!/bin/bash
# Regenerates ref/*.json.gz from /repo and spec/.  Run by hand when the reference changes, never by a check.
set -e
cd "$(dirname "$0")"
python3 run.py facts --out .build/reffacts --spec >/dev/null
python3 - <<'P'
import json, gzip, sys
sys.path.insert(0, "engine")
import facts
for c in ("ruler", "bvwit", "spec"):
    d = json.load(open(".build/reffacts/%s.json" % c))
    F = facts.Facts([d])
    for x, b in zip(d["bodies"], F.bodies):
        x["derived"] = bool(F.derived(b))
    with open("ref/%s.json.gz" % c, "wb") as raw, gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as f:
        f.write(json.dumps(d, separators=(",", ":")).encode())
P
ls -la ref
