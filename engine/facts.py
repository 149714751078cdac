"""Fact base: MIR bodies and type definitions extracted from /repo's current source."""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cfg import Body, short, norm_path, strip_generics, lastseg  # noqa: E402

DERIVABLE = ("PartialEq", "Eq", "Clone", "Debug", "Hash", "PartialOrd", "Ord", "Default", "Serialize", "Deserialize")


def key_of(path):
    return norm_path(path).replace("ruler::", "")


class Facts:
    def __init__(self, docs, repo="/repo"):
        self.repo = repo
        self.bodies = []
        self.defaults = []
        self.by = {}
        self.bykey = {}
        self.adts = {}
        self.ctors = {}
        self._ctor = {}
        self.unsafe = []
        self._src = {}
        for d in docs:
            crate = d["crate"]
            for b in d["bodies"]:
                x = Body(b, crate)
                if b["kind"] == "default":      # what a trait of another crate provides
                    self.defaults.append(x)
                    continue
                self.bodies.append(x)
                self.by[(crate, x.path)] = x
                self.bykey.setdefault(key_of(x.path), []).append(x)
            for p, vs in d["adts"]:
                self.adts[lastseg(strip_generics(p))] = [(v, [(f[0], f[1]) for f in fs]) for v, fs in vs]
                for v, fs in vs:
                    names = tuple(f[0] for f in fs)
                    if names and all(n.isdigit() for n in names):
                        nm = lastseg(strip_generics(p))
                        is_struct = len(vs) == 1 and v == nm
                        path = p if is_struct else p + "::" + v
                        self.ctors[path] = (nm, "" if is_struct else v, names)
            self.unsafe += [(crate, s) for s in d.get("unsafe_blocks", [])]

    def find(self, path, crate):
        if not path:
            return None
        b = self.by.get((crate, path))
        if b is not None:
            return b
        if "ruler::" not in path:
            return None
        c = [x for x in self.bykey.get(key_of(path), ()) if x.crate == "ruler"]
        if len(c) == 1:
            return c[0]
        p = strip_generics(path)
        if not c and re.match(r"^ruler::[a-z_0-9]+$", p):      # re-exported free function
            n = "::" + p.split("::")[1]
            c = [x for x in self.bodies if x.crate == "ruler" and x.kind == "fn" and ("::" + x.path).endswith(n)
                 and not x.d.get("implty")]
            return c[0] if len(c) == 1 else None
        return None

    def ctor(self, path):
        if path not in self._ctor:
            self._ctor[path] = self.ctor_(path)
        return self._ctor[path]

    def ctor_(self, path):
        r = self.ctors.get(path)
        if r:
            return r
        if path.startswith("ruler::") and path[7:] in self.ctors:
            return self.ctors[path[7:]]
        k = key_of(path)
        for p, v in self.ctors.items():
            if key_of(p) == k:
                return v
        if path.startswith("ruler::"):
            c = [v for p, v in self.ctors.items() if p.split("::")[-2:] == path.split("::")[-2:]]
            if len(c) == 1:
                return c[0]
        return None

    def variants(self, ty):
        n = lastseg(strip_generics(ty))
        return self.adts.get(n)

    def src(self, f):
        if f not in self._src:
            try:
                p = f if os.path.isabs(f) else os.path.join(self.repo, f)
                self._src[f] = open(p, errors="replace").read().split("\n")
            except OSError:
                self._src[f] = []
        return self._src[f]

    def derived(self, b):
        if "derived" in b.d:
            return b.d["derived"]
        t = b.d.get("implof") or ""
        tn = lastseg(strip_generics(t))
        if tn not in DERIVABLE:
            return False
        c = getattr(b, "_der", None)
        if c is None:
            m = re.match(r"(.*?):(\d+)", b.span)
            line = ""
            if m:
                L = self.src(m.group(1))
                i = int(m.group(2)) - 1
                if 0 <= i < len(L):
                    line = L[i]
            c = b._der = "fn " not in line and not re.search(r"\bimpl\b", line)
        return c

    def public(self, b):
        return b.d.get("pub")

    def resolve_dynamic(self, E, st, name, args, gargs):
        return None

    def fn(self, suffix, crate=None):
        """body whose short name / path suffix matches"""
        r = [b for b in self.bodies if b.kind == "fn" and (crate is None or b.crate == crate)
             and (b.path == suffix or short(b.path) == suffix or b.path.endswith("::" + suffix))]
        return r[0] if len(r) == 1 else (r or None)

    def fns(self, pred, crate=None):
        return [b for b in self.bodies if (crate is None or b.crate == crate) and pred(b)]


def load(dirname, repo="/repo", crates=("ruler", "bvwit")):
    docs = []
    for c in crates:
        p = os.path.join(dirname, c + ".json")
        if os.path.exists(p):
            docs.append(json.load(open(p)))
    return Facts(docs, repo)
