#!/usr/bin/env python3
"""Development: apply source variants to scratch copies of /repo and show what the checks say.

  try.py r|b [ID...]    r: behaviour-preserving rewrites (every report is a false alarm), b: planted bugs
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
SCR = os.environ.get("SCR", "/tmp/variants")


def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit does not apply (%d matches) in %s: %r" % (s.count(old), f, old[:60])
        open(p, "w").write(s.replace(old, new))
    return None


def slot_dir(k):
    t = os.path.join(SCR, "target%d" % k)
    return t


def run(job):
    vid, edits, k = job
    d = os.path.join(SCR, "repo%d" % k)
    os.makedirs(d, exist_ok=True)
    for n in ("src", "Cargo.toml", "Cargo.lock", "rust-toolchain"):
        s, t = os.path.join("/repo", n), os.path.join(d, n)
        if os.path.isdir(s):
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(s, t)
        elif os.path.exists(s):
            shutil.copy(s, t)
    e = apply(d, edits)
    if e:
        return vid, "EDIT", e
    env = dict(os.environ, RULER_REPO=d, RULER_TARGET=slot_dir(k), RUST_BACKTRACE="0")
    code = r'''
import sys,os
sys.path.insert(0,%r); sys.path.insert(0,%r)
sys.setrecursionlimit(200000)
import extract
d=extract.facts()
import facts, refs, obligations, props, json, time
F=facts.load(d,repo=extract.REPO,crates=("ruler","bvwit")); G=refs.load_ref(); P=refs.Pairing(F,G); C=obligations.Checker(F,G,P)
out={}
t=time.time()
seen={}
for pid,p in props.PROPS.items():
    for o in p["obligations"]:
        if o not in seen:
            try: seen[o]=props.decide(dict(obligations=[o]),F,G,P,C,False)
            except RecursionError as e: seen[o]=[dict(status="crash",rule=o[0],what=o[1],detail=repr(e)[:200])]
            except Exception as e:
                import traceback
                seen[o]=[dict(status="crash",rule=o[0],what=o[1],detail=traceback.format_exc()[-900:])]
for n in P.swaps: seen[("swap",n)]=[props.decide_eq(n,F,G,P,C,False)]
for o,rs in seen.items():
    for x in rs:
        if x["status"]!="held":
            print("@@",json.dumps({k:x.get(k) for k in ("status","rule","what","detail","report")}))
print("@@T %%.1f"%%(time.time()-t))
''' % (os.path.join(V, "engine"), V)
    r = subprocess.run([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [json.loads(l[3:]) for l in r.stdout.splitlines() if l.startswith("@@ ")]
    if "@@T" not in r.stdout:
        return vid, "FAIL", r.stdout[-1500:]
    t = [l[4:] for l in r.stdout.splitlines() if l.startswith("@@T")][0]
    return vid, "OK", (lines, t)


def main(a):
    kind = a[0]
    import importlib
    V_ = {}
    for m in ("refactors", "refactors2") if kind == "r" else ("bugs", "bugs2"):
        mod = importlib.import_module(m)
        V_.update(mod.V)
    ids = a[1:] or list(V_)
    ids = [i for x in ids for i in (V_ if x == "ALL" else [v for v in V_ if v == x or v.startswith(x)])]
    os.makedirs(SCR, exist_ok=True)
    N = min(8, len(ids))
    verbose = len(ids) <= 3
    import queue
    q = queue.Queue()
    for k in range(N):
        q.put(k)

    def go(i):
        k = q.get()
        try:
            return run((i, V_[i], k))
        finally:
            q.put(k)
    tally = {}
    with cf.ThreadPoolExecutor(N) as ex:
        for vid, st, x in ex.map(go, ids):
            if st != "OK":
                print("%-34s %s %s" % (vid, st, x if verbose or st == "EDIT" else "\n".join([l for l in x.splitlines() if "error" in l][:6]) or x[-500:]))
                tally[st] = tally.get(st, 0) + 1
                continue
            ls, t = x
            vi = [l["what"] for l in ls if l["status"] == "violation"]
            un = [l["what"] for l in ls if l["status"] == "undecided"]
            cr = [l["what"] for l in ls if l["status"] == "crash"]
            s = "VIOL " + ",".join(vi) if vi else "quiet"
            k = "violation" if vi else ("undecided" if un else "quiet")
            tally[k] = tally.get(k, 0) + 1
            if cr:
                tally["crash"] = tally.get("crash", 0) + 1
            flag = ""
            if kind == "r" and vi or kind == "b" and not vi or cr:
                flag = "  <<<"
            print("%-34s %s%s%s [%ss]%s" % (vid, s[:150], " undecided:" + ",".join(un)[:120] if un else "", " CRASH:" + ",".join(cr)[:100] if cr else "", t, flag))
            if kind == "b" and un and not vi and not verbose:
                for l in ls:
                    if l["status"] == "undecided":
                        print("      ", l["what"][:60], "::", (l.get("detail") or "")[-230:].replace("\n", " "))
            if verbose:
                for l in ls:
                    print(l["status"], l["what"], (l.get("detail") or "")[:600])
                    print((l.get("report") or "")[:4000])
    print(tally)


main(sys.argv[1:])
