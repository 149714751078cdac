#!/usr/bin/env python3
"""why.py VARIANT NAME [unfold] [ROUNDS]: conditions only one side has that no interpretation decides both ways"""
import os, sys, importlib, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(200000)
SCR = os.environ.get("SCR", "/tmp/variants3")
vs = {}
for m in ("bugs", "bugs2", "refactors", "refactors2"):
    vs.update(importlib.import_module(m).V)
d = os.path.join(SCR, "repo9"); os.makedirs(d, exist_ok=True)
for n in ("src", "Cargo.toml", "Cargo.lock", "rust-toolchain"):
    s, t = os.path.join("/repo", n), os.path.join(d, n)
    if os.path.isdir(s):
        shutil.rmtree(t, ignore_errors=True); shutil.copytree(s, t)
    elif os.path.exists(s):
        shutil.copy(s, t)
for f, old, new in vs.get(sys.argv[1], []):
    p = os.path.join(d, f); s = open(p).read(); assert s.count(old) == 1, old
    open(p, "w").write(s.replace(old, new))
os.environ["RULER_REPO"] = d; os.environ["RULER_TARGET"] = os.path.join(SCR, "target9")
import extract, facts, refs, obligations, props, apart, engine
from terms import show
D = extract.facts(); F = facts.load(D, repo=d, crates=("ruler", "bvwit")); G = refs.load_ref(); P = refs.Pairing(F, G); C = obligations.Checker(F, G, P)
r = sys.argv[2]; fb, sb = P.pairs[r]; names = obligations.spec_names(sb)
R = C.check(r) if "check" in sys.argv else None
if R: print(R.status, R.detail)
for ops in (obligations.HEAVY, obligations.HEAVY | obligations.MEDIUM):
    AB = C.expanded(fb, sb, names, ops, 60)
    if AB: break
A, B = AB
voc = set(engine.MODELS) | C.anchors
uf = (None, None)
if "unfold" in sys.argv: uf = (C.unfolder(F, A, None), C.unfolder(G, B, P.redirect))
cov = {}
ob = apart.trial
def tr(A_, B_, I, vo, pt, st, op, odd, cv, *a, **k):
    c = {}
    try:
        return ob(A_, B_, I, vo, pt, st, op, odd, c, *a, **k)
    finally:
        cv.update(c)
        for x in c: cov[x] = cov.get(x, 0) + 1
apart.trial = tr
t = time.time()
for first in (1, 1000000, 2000000):
    Vd = apart.search(A, B, voc, first, 4000, 25, 1, unfold=uf)
    print(first, Vd)
    if Vd.value or Vd.stop: break
pol = {}
for (x, y), n in [(k, n) for k, n in cov.items() if isinstance(k, tuple) and len(k) == 2]:
    pol.setdefault(x, {})[y] = n
odd = apart.odd_terms(A, B)
S_ = set()
for rt in apart.roots_of(A): S_.update(apart.subterms(rt, set()))
print("odd", len(odd))
for x in sorted(odd, key=lambda x: len(show(x, 12))):
    p = pol.get(x, {})
    b = x.op in ("eq", "lt", "and", "or", "not", "is", "contains", "haskey", "any", "all", "ite", "bin", "len", "call", "f")
    print("A" if x in S_ else "B", {str(k)[:12]: v for k, v in p.items()}, x.op, show(x, 6)[:230].replace("\n", " "))
