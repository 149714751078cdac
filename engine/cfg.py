"""MIR bodies: control-flow graph, natural loops, liveness."""
import re


def strip_generics(p):
    # remove <...> that follow '::' or an identifier, keep leading '<X as Y>'
    out, i, n = [], 0, len(p)
    while i < n:
        c = p[i]
        if c == "<" and i > 0 and (p[i - 1].isalnum() or p[i - 1] in ":_"):
            d = 0
            while i < n:
                if p[i] == "<":
                    d += 1
                elif p[i] == ">" and p[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
            continue
        out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"::::", "::", s)
    s = re.sub(r"::$", "", s)
    return s


_short = {}
PRIM = {"impl": 1}


def short(p):
    r = _short.get(p)
    if r is None:
        r = _short[p] = _shorten(p)
    return r


def _shorten(p):
    """last two meaningful segments without generics: Ruleset::add, Option::map, fs::write"""
    s = p
    m = re.match(r"^<(.*)>::([A-Za-z_0-9:{}#]+)$", s)
    if m and " as " in m.group(1):
        ty, tr = m.group(1).split(" as ", 1)
        return lastseg(strip_generics(ty)) + " as " + lastseg(strip_generics(tr)) + "::" + m.group(2)
    s = re.sub(r"<impl \[T\]>", "slice", s)
    s = re.sub(r"<impl str>", "str", s)
    s = re.sub(r"<impl ([a-z0-9]+)>", r"\1", s)
    s = re.sub(r"::<impl [^:]*?(?:<[^>]*>)?>::", "::", s)
    s = strip_generics(s)
    seg = [x for x in s.split("::") if x]
    if seg and "__" in seg[-1][1:]:         # reference functions: Type__method stands for Type::method
        return seg[-1].replace("__", "::", 1)
    return "::".join(seg[-2:])


def lastseg(s):
    return s.split("::")[-1].strip("&' ")


def norm_path(p):
    """module-free path used to match bodies across crates"""
    return re.sub(r"\b(?:[a-z_][a-z_0-9]*::)+(?=[A-Z<])", "", p)


class Body:
    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.path = d["path"]
        self.kind = d["kind"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.span = d["span"]
        self.upvars = d.get("upvars")
        self.promoted = [Body(x, crate) for x in d.get("promoted", [])]
        self._an = False

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            r = [t[1]]
        elif k == "switch":
            r = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            r = [t[2]]
        elif k == "call":
            r = [] if t[4] in (None, "null") else [t[4]]
        elif k == "assert":
            r = [t[3]]
        else:
            r = []
        return [int(x) for x in r]

    def analyse(self):
        if self._an:
            return
        self._an = True
        n = len(self.blocks)
        self.succs = {}
        order, seen = [], set()
        st = [(0, None)]
        # iterative DFS postorder
        seen.add(0)
        self.succs[0] = [s for s in self.succ(0) if self.blocks[s] is not None]
        stack = [(0, iter(self.succs[0]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succs[s] = [x for x in self.succ(s) if self.blocks[x] is not None]
                    stack.append((s, iter(self.succs[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs[b]:
                preds[s].append(b)
        # dominators (iterative)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]

        self.loops = {}
        for b in rpo:
            for s in self.succs[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        # liveness of locals
        use, de = {}, {}
        for b in rpo:
            u, d = set(), set()

            def usep(p, u=u, d=d):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "index" and int(e[1]) not in d:
                        u.add(int(e[1]))

            def useo(o):
                if o[0] in ("copy", "move"):
                    usep(o[1])

            def defp(p):
                if p[1]:
                    usep(p)
                else:
                    d.add(p[0])
            for pl, rv, _ in self.blocks[b]["s"]:
                k = rv[0]
                if k in ("use", "repeat"):
                    useo(rv[1])
                elif k == "ref":
                    usep(rv[2])
                elif k == "cast":
                    useo(rv[2])
                elif k == "bin":
                    useo(rv[2]); useo(rv[3])
                elif k == "un":
                    useo(rv[2])
                elif k == "discr":
                    usep(rv[1])
                elif k == "agg":
                    for o in rv[5]:
                        useo(o)
                elif k == "setdiscr":
                    usep(pl)
                defp(pl)
            t = self.blocks[b]["t"]
            if t[0] == "switch":
                useo(t[1])
            elif t[0] == "call":
                useo(t[1])
                for o in t[2]:
                    useo(o)
                defp(t[3])
            elif t[0] == "assert":
                useo(t[1])
            elif t[0] == "return":
                usep([0, []])
            use[b], de[b] = u, d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for s in self.succs[b]:
                    o |= live[s]
                nl = use[b] | (o - de[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        self.live = live
