"""The properties, the obligations that decide each, and how an obligation is discharged."""
import compare as CM
import engine as EN
import lints
from terms import show
from cfg import short

ASSUMPTIONS = [
    "rustc's MIR (nightly, after drop elaboration) is a faithful lowering of the source the pinned toolchain compiles",
    "egg, indexmap, itertools, serde_json, symbolic_expressions, z3 and std behave as their documentation says; "
    "their calls are modelled or kept as uninterpreted operations in both sides of a comparison",
    "domains outside the library (the test languages) implement the language trait as documented",
    "the reference semantics in spec/ state the property; they are read, not executed",
]

EQ = "equal-to-reference"


def eq(*names):
    return [("eq", n) for n in names]


def lint(*names):
    return [("lint", n) for n in names]


def bv(*names):
    return [("eq", "Bv<%d> as SynthLanguage::%s" % (w, n)) for n in names for w in (4, 32, 64, 128)]


PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, obligations, how=None):
    assert len(title) <= 80, title
    PROPS[pid] = dict(
        id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
        mechanism=mechanism, obligations=obligations,
        how=how or "value-flow summaries of the functions below, over all paths of the current MIR, compared with the "
                   "reference semantics in normal form; the listed rules are decided on the same fact base")


import proptable  # noqa: E402,F401


# ---- deciding -----------------------------------------------------------------------------------
def where(b, F):
    return b.span


def report(name, fb, R):
    out = ["%s (%s) does not compute what its reference does:" % (name, fb.span)]
    for d in R.diffs[:3]:
        cond = " and ".join(("" if v else "not ") + show(k, 6) for k, v in d.where)[:900] or "always"
        out.append("  on the path where: " + cond)
        if d.kind == "value":
            x, y = CM.first_diff(d.a, d.b)
            out.append("    the code yields:      " + show(x, 14)[:900])
            out.append("    the reference yields: " + show(y, 14)[:900])
        else:
            out.append("    " + show(d.a, 3))
    return "\n".join(out)


def kept_state(fb, F, P):
    """a cell that outlives the call, read by this function or by a helper that is not itself an anchor"""
    hs = lints.hidden_state(F)
    if not any(v[2] for v in hs.values()):
        return None
    anchors = {x.path for x, _ in P.pairs.values()}
    seen, todo = set(), [fb]
    while todo:
        b = todo.pop()
        if b.path in seen:
            continue
        seen.add(b.path)
        if b.path in hs and hs[b.path][2]:
            return hs[b.path]
        todo += [x for x in F.bodies if x.crate == b.crate and x.kind == "closure" and x.path.startswith(b.path + "::{closure")]
        for _, t, c in lints.calls(b):
            x = F.find(c.get("res") or c["path"], b.crate)
            if x is not None and x.kind == "fn" and x.path not in anchors:
                todo.append(x)
    return None


def decide_eq(name, F, G, P, C, thorough):
    o = dict(rule=EQ, what=name, functions=[name], key=EQ + ":" + name)
    if name not in P.pairs and name not in P.swaps:
        ref = P.base.get(name)
        if ref is None or name not in P.refs:
            o.update(status="undecided", detail="no reference of this name")
        elif ref.d.get("pub"):
            o.update(status="violation", detail="the public operation is gone",
                     report="%s: the public operation of this name no longer exists" % name)
        else:
            o.update(status="undecided", detail="private function not found; its callers are compared with it expanded")
        return o
    fb, sb = P.pairs.get(name) or P.swaps[name]
    R = C.check(name)
    o.update(where=fb.span, outs=R.outs, loops=R.loops, calls=R.calls, panics=R.panics)
    h = None if R.status == "ok" else kept_state(fb, F, P)
    if R.status == "ok":
        o["status"] = "held"
    elif h:
        o.update(status="violation", detail="state kept between calls",
                 report="%s (%s) does not compute what its reference does: at %s its result depends on %s, which earlier calls "
                        "wrote; the reference depends on its arguments alone" % (name, fb.span, h[0], ", ".join(h[1])))
    elif R.status == "diff":
        o.update(status="violation", report=report(name, fb, R), detail=R.detail)
    else:
        o.update(status="undecided", detail=R.detail)
    return o


# where an implementation of a trait belongs when none of the operations of that trait and type is listed
OWNERS = {"Interval": ("P15", "P16"), "BV": ("P41", "P44"), "Metric": ("P30",), "ValidationResult": ("P01",), "DeriveType": ("P04",),
          "Rule": ("P06", "P37"), "Ruleset": ("P37", "P38"), "Sexp": ("P33", "P34"), "Workload": ("P28",), "Scheduler": ("P12", "P10")}


def owners(name):
    """properties a new implementation of `T as Trait::m` bears on: those about Trait::m, that trait of T, or else T"""
    t, m = name.split(" as ")
    r = [pid for pid, p in PROPS.items() if ("eq", m) in p["obligations"]]
    for pre in ((name.rsplit("::", 1)[0] + "::",), (t + " as ", t + "::")):
        q = [pid for pid, p in PROPS.items() if any(k == "eq" and n.startswith(pre) for k, n in p["obligations"])]
        if q and (pre[0].count("::") or t not in OWNERS):
            return r + q
    return r + list(OWNERS.get(t, ()))


def decide(p, F, G, P, C, thorough):
    res = []
    for name in P.swaps:
        if PROPS.get(p.get("id")) is p and p["id"] in owners(name):
            res.append(decide_eq(name, F, G, P, C, thorough))
    for kind, name in p["obligations"]:
        if kind == "eq":
            res.append(decide_eq(name, F, G, P, C, thorough))
        else:
            res += lints.LINTS[name](F, G, P, C)
    return res
