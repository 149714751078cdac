"""Pairing of the analysed tree's functions with their references.

The reference facts (ref/*.json.gz) are frozen: `spec` is the hand-written reference crate lowered to MIR,
`ruler` and `bvwit` are the confirmed baseline, used where no hand-written reference exists and to resolve
the calls the references make.  Nothing on the reference side depends on the tree under analysis.
"""
import gzip
import json
import os
import facts as FX
from cfg import short

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "ref")

# bodies that are not behaviour of the library: test languages, pure pretty printing to the terminal
SKIP = ("SymbolLang>::", "Ruleset::print_derive", "Workload::pretty_print", "Language::children_mut",
        # private helpers: part of their callers' summaries
        "Ruleset::select", "Ruleset::shrink", "recipe_utils::run_workload_internal", "rule::apply_pat",
        "logger::get_derivability")


def load_ref():
    docs = []
    for c in ("ruler", "bvwit", "spec"):
        with gzip.open(os.path.join(REF, c + ".json.gz"), "rt") as f:
            docs.append(json.load(f))
    return FX.Facts(docs)


def label(b):
    s = short(b.path)
    if b.kind == "const":
        return "::".join(s.split("::")[-2:])
    if b.crate == "bvwit":
        w = [x for x in b.path.replace("<", "").split("::") if x.startswith("bv")][0][2:]
        return s.replace("Bv", "Bv<%s>" % w, 1)
    return s


def index(F, crate):
    r = {}
    for b in F.bodies:
        if b.crate == crate and (b.kind == "fn" and not F.derived(b) or b.kind == "const"):
            n = label(b)
            if n == "_" or n.endswith("::_"):
                continue
            r.setdefault(n, []).append(b)
    return r


def locate(n, byn):
    """name of the analysed function a reference function `Type::method` stands for"""
    if n in byn:
        return n
    if "::" not in n:
        return None
    t, m = n.split("::", 1)
    c = [k for k in byn if k.startswith(t + " as ") and k.endswith("::" + m)]
    if n == "core::cost":
        return "ExtractableAstSize as CostFunction::cost"
    if n.endswith("::fmt"):
        c = [k for k in c if "Display" in k]
    return c[0] if len(c) == 1 else None


# what no operation of the library observes, or whose value means nothing (a hash)
UNCOMPARED = ("Debug::fmt", "Hash::hash", "::serialize", "::deserialize", "::assert_fields_are_eq", "::clone_from")


def derived(F):
    r = {}
    for b in F.bodies:
        if b.crate in ("ruler", "bvwit") and b.kind == "fn" and F.derived(b):
            r[label(b)] = b
    return r


def provided(F, n):
    """body of the method the trait provides for `T as Trait::m`, as the implementation would have it"""
    c = [b for b in F.defaults if label(b) == n + "::{default}"]
    return c[0] if len(c) == 1 else None


class Pairing:
    def __init__(self, F, G):
        self.F, self.G = F, G
        spec = {}
        for b in G.bodies:
            if b.crate == "spec" and b.kind == "fn":
                spec[short(b.path)] = b
        gn = index(G, "ruler")
        gw = index(G, "bvwit")
        fn = index(F, "ruler")
        fw = index(F, "bvwit")
        self.pairs, self.redirect, self.missing, self.spec = {}, {}, {}, {}
        refs = {}
        for n, sb in spec.items():
            r = locate(n, gn)
            if r:
                refs[r] = sb
                self.spec[r] = True
                for g in gn[r]:
                    self.redirect[g] = sb
        for n, bs in list(gn.items()) + list(gw.items()):
            if n in refs or any(s in n for s in SKIP) or len(bs) != 1:
                continue
            refs[n] = bs[0]
        self.refs = refs
        self.base = {n: bs[0] for n, bs in list(gn.items()) + list(gw.items())}
        for n, sb in refs.items():
            c = fn.get(n) or fw.get(n)
            if c and len(c) == 1:
                self.pairs[n] = (c[0], sb)
            else:
                self.missing[n] = sb
        # implementations written by hand where the reference derives them or takes what the trait provides, and the reverse
        self.swaps = {}
        gd, fd = derived(G), derived(F)
        for n in list(self.missing):
            if n in self.spec or " as " not in n:
                continue
            c = fd.get(n) or provided(F, n)
            if c is not None:
                self.pairs[n] = (c, self.missing.pop(n))
        for n, bs in list(fn.items()) + list(fw.items()):
            if n in gn or n in gw or " as " not in n or len(bs) != 1:
                continue
            r = gd.get(n) or provided(F, n)
            if r is not None and not n.endswith(UNCOMPARED):
                self.swaps[n] = (bs[0], r)
        known = set(gn) | set(gw)
        self.new = sorted(n for n in list(fn) + list(fw) if n not in known)
