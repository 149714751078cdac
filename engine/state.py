"""State that outlives a call: statics with interior mutability and thread-locals.

A function whose result or effects depend on such a cell computes a different value depending on what ran before it.
Cells whose content is the same whatever ran before are not state: frozen statics, lazily initialised statics whose
initialiser captures nothing, counters nobody reads, and tables looked up by a key that covers everything the stored
value was computed from.
"""
from cfg import short

WRITES = ("insert", "push", "extend", "replace", "store", "set", "swap", "push_back", "get_or_insert", "or_insert",
          "append", "clear", "take", "get_or_init", "or_insert_with", "get_or_insert_with", "put", "fetch_add", "fetch_sub",
          "fetch_or", "fetch_and", "fetch_max", "fetch_min", "compare_exchange")
FAITHFUL = ("clone", "to_string", "to_owned", "to_vec", "into", "from", "deref", "as_ref", "as_str", "borrow", "as_slice",
            "format", "new_display", "new_debug", "new", "must_use", "cloned", "copied", "as_bytes", "into_boxed_str",
            "eq", "ne", "iter", "find", "any", "position", "contains", "new_v1", "new_const")
READERS = ("load", "get", "lock", "read", "borrow", "with_borrow")


def local_key(t):
    return "std::thread::LocalKey<" in t


def once(t):
    return any(x in t for x in ("OnceLock<", "OnceCell<"))


def lazy(t):
    return any(x in t for x in ("LazyLock<", "LazyCell<", "lazy::Lazy<"))


class Scan:
    """one body: what depends on the cell, what is stored in it, what it is looked up by"""

    def __init__(self, b, seeds, operands, fname):
        self.b, self.ops, self.fname = b, operands, fname
        self.cell = set(seeds)
        self.deps = {i: {("p%d" % i, "", True)} for i in range(1, b.argc + 1) if i not in self.cell}
        self.key, self.val, self.sites, self.funs = set(), set(), [], set()
        # locals that stand for a place inside a parameter: only their fields are fields of the parameter
        self.place = set(range(1, b.argc + 1))
        for _ in range(4):
            for bl in b.blocks:
                for pl, rv, _ in (bl["s"] if bl else ()):
                    if not pl[1] and rv[0] in ("use", "ref", "copyderef", "deref", "reborrow"):
                        if any(o and o[0] in ("copy", "move") and o[1][0] in self.place for o in operands(rv)):
                            self.place.add(pl[0])
        for _ in range(15):
            n = self.size()
            self.sweep()
            if n == self.size():
                break

    def size(self):
        return (len(self.cell), len(self.key), len(self.val), sum(len(x) for x in self.deps.values()))

    def roots(self, o):
        if not o or o[0] not in ("copy", "move"):
            return set()
        l, proj = o[1][0], o[1][1]
        base = self.deps.get(l, set())
        for e in proj:
            if e[0] == "field" and l in self.place:
                base = {(p, q + "." + str(e[1]), f) if q.count(".") < 2 else (p, q, f) for p, q, f in base}
        return base

    def tainted(self, o):
        if not o:
            return False
        if o[0] == "const":
            return o[1].get("k") == "static" and o[1].get("state") in (True, "true")
        return o[0] in ("copy", "move") and o[1][0] in self.cell

    def sweep(self):
        # a value picked by branches depends on what they test
        writes, tests = {}, set()
        for bl in self.b.blocks:
            if bl is None:
                continue
            for pl, rv, _ in bl["s"]:
                if not pl[1]:
                    writes[pl[0]] = writes.get(pl[0], 0) + 1
            if bl["t"][0] == "switch" and not self.tainted(bl["t"][1]):
                tests |= {(p, q, False) for p, q, f in self.roots(bl["t"][1])}
        for l, n in writes.items():
            if n > 1:
                self.deps.setdefault(l, set()).update(tests)
        for bl in self.b.blocks:
            if bl is None:
                continue
            for pl, rv, _ in bl["s"]:
                os = self.ops(rv)
                d = set()
                for o in os:
                    d |= self.roots(o)
                c = any(self.tainted(o) for o in os)
                if rv[0] == "bin":
                    if c:
                        self.key |= d
                    d = {(p, q, False) for p, q, f in d}
                if pl[0] in self.cell and pl[1] and not c:
                    self.val |= d
                if c:
                    self.cell.add(pl[0])
                self.deps.setdefault(pl[0], set()).update(d)
            t = bl["t"]
            if t[0] != "call":
                continue
            path = self.fname(t)
            nm = path.split("::")[-1]
            cs = [self.tainted(a) for a in t[2]]
            d, rest = set(), set()
            for a, c in zip(t[2], cs):
                r = self.roots(a)
                d |= r
                if not c:
                    rest |= r
            if nm not in FAITHFUL:
                d = {(p, q, False) for p, q, f in d}
            if any(cs):
                if nm in WRITES:
                    self.val |= rest
                else:
                    self.key |= rest
                self.cell.add(t[3][0])
            self.deps.setdefault(t[3][0], set()).update(d)

    def covered(self):
        """everything stored was computed from what the cell is looked up by"""
        keys = {(p, q) for p, q, f in self.key if f}

        def has(p, q):
            return any(p == kp and (q == kq or q.startswith(kq + ".")) for kp, kq in keys)
        return bool(keys) and bool(self.val) and all(has(p, q) for p, q, f in self.val)

    def visible(self):
        """the cell's content reaches the result, a branch, or what the parameters point to"""
        b = self.b
        if 0 in self.cell and b.locals[0][0] not in ("()", "!"):
            return True
        for bl in b.blocks:
            if bl is None:
                continue
            t = bl["t"]
            if t[0] == "switch" and self.tainted(t[1]):
                return True
            if t[0] == "call" and any(self.tainted(a) for a in t[2]):
                if "ruler::" in self.fname(t) or t[1][1].get("reslocal") in (True, "true"):
                    return True
            for pl, rv, _ in bl["s"]:
                if pl[1] and pl[0] in self.deps and pl[0] <= b.argc and any(self.tainted(o) for o in self.ops(rv)):
                    return True
        return False


def stateful(F, operands, fname):
    """body path -> (place, why, sure) for every body that reads a cell other calls wrote"""
    out = {}
    cap = {}
    for b in F.bodies:
        if b.kind == "closure":
            cap[b.path] = len(b.upvars or ())
    for b in F.bodies:
        if b.crate not in ("ruler", "bvwit") or b.kind not in ("fn", "closure"):
            continue
        cells = set()
        names = set()
        inits = []
        at = b.span
        for bl in b.blocks:
            if bl is None:
                continue
            items = [(o, sp) for _, rv, sp in bl["s"] for o in operands(rv)]
            t = bl["t"]
            if t[0] == "call":
                items += [(a, t[5]) for a in t[2]]
            for o, sp in items:
                if o and o[0] == "const" and o[1].get("k") == "static" and o[1].get("state") in (True, "true"):
                    ty = o[1].get("ty", "")
                    if lazy(ty):
                        continue
                    names.add((short(o[1]["path"]), ty))
                    at = sp
        for i, (ty, *_) in enumerate(b.locals):
            if local_key(ty) and i > b.argc:
                names.add(("thread-local", ty))
                cells.add(i)
        if not names:
            continue
        if all(once(ty) for _, ty in names):
            bad = False
            for bl in b.blocks:
                if bl is None or bl["t"][0] != "call":
                    continue
                t = bl["t"]
                nm = fname(t).split("::")[-1]
                if "Once" not in fname(t):
                    continue
                if nm in ("set", "get", "take", "try_insert", "get_mut"):
                    bad = True
                if nm.startswith("get_or"):
                    cl = t[1][1].get("closures") or []
                    if not all(cap.get(c, 1) == 0 for c in cl):
                        bad = True
            if not bad:
                continue
        S = Scan(b, cells, operands, fname)
        if any(local_key(ty) for _, ty in names):
            # the cell is handed to the closure given to `with`
            subs = [x for x in F.bodies if x.kind == "closure" and x.crate == b.crate and x.path.startswith(b.path + "::{closure")
                    and x.argc >= 2 and any(k in x.locals[2][0] for k in ("Cell<", "Mutex<", "RwLock<", "Atomic"))]
            vis, cov = not subs, bool(subs)
            for x in subs:
                s = Scan(x, {2}, operands, fname)
                vis = vis or s.visible()
                cov = cov and s.covered()
            if vis:
                out[b.path] = (at, sorted(n for n, _ in names), not cov)
            continue
        if not S.visible() and not [x for x in F.bodies if x.kind == "closure" and x.path.startswith(b.path + "::{closure") and any(
                True for _ in ())]:
            continue
        out[b.path] = (at, sorted(n for n, _ in names), not S.covered())
    return out
