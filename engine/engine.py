"""Path-partitioned abstract interpreter over MIR.

Values are hash-consed provenance terms; memory is a map object -> term; every branch outcome is a
guard; loops are summarised once (header phis, per-iteration guarded updates) and, where an update
is an accumulation, closed into a comprehension term.  No solver, no concrete execution: two guards
are compared only after reduction to canonical decision diagrams over uninterpreted atoms.
"""
import re
import time
from terms import *
import terms as TM
from cfg import Body, short, norm_path, strip_generics, lastseg

T_ = TM.T_
DEADLINE = None
IDX = {}        # loop test of an index loop -> end of its range


class Inconclusive(Exception):
    pass


class St:
    __slots__ = ("env", "conj", "ev", "loops", "loc")

    def __init__(self, env, conj, ev, loops, loc=frozenset()):
        # loc: atoms that hold of the iteration in which a finished loop was left
        self.env, self.conj, self.ev, self.loops, self.loc = env, conj, ev, loops, loc

    def copy(self):
        return St(dict(self.env), dict(self.conj), self.ev, self.loops, self.loc)

    def set(self, o, v):
        s = self.copy()
        s.env[o] = v
        return s

    def formula(self, skip=()):
        return f_conj([(t, v) for t, v in self.conj.items() if t.op != "done" and t not in skip])


class Loop:
    def __init__(self, id, key):
        self.id, self.key = id, key
        self.binds = []        # (iv term, domain term)
        self.iterobj = None
        self.itval = None
        self.entry = {}
        self.zipping = False
        self.phis = {}
        self.backs = []
        self.exits = []
        self.indexslots = {}
        self.closed = {}
        self.finished = False
        self.enclosing = ()
        self.where = None
        self.entry_env = None
        self.entry_conj = {}

    def iv(self, k=0):
        return T_("iv", self.id, k)

    def header_next(self, c):
        """a `next` call drives the loop when it dominates all of it"""
        if self.where is None:
            return False
        body, hdr = self.where
        return c.frame is not None and True


class Call:
    __slots__ = ("name", "path", "res", "gargs", "args", "E", "frame", "bb", "span", "key", "local", "unused")

    def v(self, st, i):
        return self.E.val(st, self.args[i])

    def sub(self, n):
        return self.key + "." + n


def lookup(conj, t):
    """known truth value of an atom, or None"""
    r = conj.get(t)
    if r is not None:
        return r
    if t in IDX:
        r = conj.get(IDX[t])
        return None if r is None else not r
    o = t.op
    if o == "is":
        x, v, vs = t.a
        neg = 0
        for w in vs:
            k = conj.get(T_("is", x, w, vs))
            if w == v:
                continue
            if k is True:
                return False
            if k is False:
                neg += 1
        if neg == len(vs) - 1:
            return True
    elif o == "eq":
        a, b = t.a
        c, x = (a, b) if a.op in CONSTS else (b, a)
        if c.op in CONSTS:
            for k, v in conj.items():
                if v and k.op == "eq":
                    p, q = k.a
                    if p is x and q.op == c.op and q is not c:
                        return False
                    if q is x and p.op == c.op and p is not c:
                        return False
        if conj.get(T_("lt", a, b)) or conj.get(T_("lt", b, a)):
            return False
    elif o == "lt":
        a, b = t.a
        if conj.get(T_("lt", b, a)):
            return False
        e = mk_eq(a, b)
        if conj.get(e):
            return False
    return None


def assume(st, t, val):
    if t is TRUE:
        return [st] if val else []
    if t is FALSE:
        return [] if val else [st]
    if t.op == "not":
        return assume(st, t.a[0], not val)
    if t.op == "ite":
        f = t if val else f_not(t)
        out = []
        for p in f_paths(f):
            ss = [st]
            for a, v in p:
                ss = [s2 for s in ss for s2 in assume(s, a, v)]
            out += ss
        return out
    k = lookup(st.conj, t)
    if k is not None:
        return [st] if k == val else []
    s = st.copy()
    if t in IDX:
        s.conj[IDX[t]] = not val
        return [s]
    s.conj[t] = val
    if t.op == "is" and not val:
        x, v, vs = t.a
        rest = [w for w in vs if w != v and s.conj.get(T_("is", x, w, vs)) is not False]
        if len(rest) == 1 and len(vs) > 2:
            s.conj[T_("is", x, rest[0], vs)] = True
    if t.op == "is" and val:
        # positive knowledge subsumes the negative
        x, v, vs = t.a
        for w in vs:
            if w != v:
                s.conj.pop(T_("is", x, w, vs), None)
    elif t.op == "is" and any(s.conj.get(T_("is", t.a[0], w, t.a[2])) for w in t.a[2]):
        for w in t.a[2]:
            if s.conj.get(T_("is", t.a[0], w, t.a[2])) is False:
                s.conj.pop(T_("is", t.a[0], w, t.a[2]))
    return [s]


def strip_box(name):
    return name


def int_limit(n):
    m = re.match(r"^(?:num::)?([ui])(8|16|32|64|128|size)::(MAX|MIN)$", n)
    if not m:
        return None
    w = 64 if m.group(2) == "size" else int(m.group(2))
    if m.group(1) == "u":
        return (1 << w) - 1 if m.group(3) == "MAX" else 0
    return (1 << (w - 1)) - 1 if m.group(3) == "MAX" else -(1 << (w - 1))


TRANSPARENT_FIELDS = {"std::mem::MaybeUninit", "std::mem::ManuallyDrop", "core::mem::MaybeUninit",
                      "core::mem::ManuallyDrop",
                      # a box is what it holds
                      "std::boxed::Box", "std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull"}


class Engine:
    LIMIT = 6000

    def __init__(self, facts, opaque=(), max_parts=4000, inline=()):
        IDX.clear()
        self.inline = set(inline)
        self.redirect = {}
        self.prints = False         # whether printing to the terminal is an effect
        self.atinfo = {}
        self.facts = facts
        self.opaque = set(opaque)
        self.recs = {}          # name of a recursive call left uninterpreted -> its body
        self.loops = {}
        self.nloop = 0
        self.stack = []
        self.alias = {}
        self.calls = []
        self.panics = []
        self.steps = 0
        self.max_parts = max_parts
        self.visited = set()
        self.unmodelled = {}
        self.spans = {}

    # ---- memory -----------------------------------------------------------------------
    def val(self, st, t):
        n = 0
        while t.op == "ptr" and n < 8:
            t = self.load(st, t)
            n += 1
        return t

    def load(self, st, p):
        o = p.a[0]
        if o not in st.env:
            raise Inconclusive("dangling pointer %s" % (o,))
        v = st.env[o]
        for s in p.a[1]:
            v = self.get_step(v, s)
        return v

    def get_step(self, v, s):
        k = s[0]
        if k == "f":
            return mk_field(v, s[1], s[2])
        if k == "i":
            return mk_idx(v, s[1])
        if k == "slot":
            if v.op == "upd" and v.a[1] == s:
                return v.a[2]
            if v.op == "seq" and len(v.a) > 1:
                g = v.a[-1]
                if g.a[0] == "insabsent" and not g.a[2] and g.a[3] is s[1]:
                    return T_("slotor", mk_seq(*v.a[:-1]) if len(v.a) > 2 else v.a[0], s[1], s[2])
            return T_("slotor", v, s[1], s[2])
        if k == "at":
            if v.op == "upd" and v.a[1] == s:
                return v.a[2]
            if s[1] == "map":
                return mget(v, s[2])
            return T_("call", s[1], v, s[2])
        raise Inconclusive("step %s" % (s,))

    def set_path(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        nv = self.set_path(self.get_step(v, s), rest, new)
        k = s[0]
        if k == "f":
            if v.op == "agg":
                kind, p, var, names = v.a[:4]
                vals = list(v.a[4:])
                if kind == "adt" and s[1] in names:
                    vals[names.index(s[1])] = nv
                    return agg(kind, p, var, names, vals)
                if kind != "adt" and s[1].isdigit() and int(s[1]) < len(vals):
                    vals[int(s[1])] = nv
                    return agg(kind, p, var, names, vals)
            return set_field(v, s, nv)
        if k == "i":
            if v.op == "agg" and v.a[0] == "array" and s[1].op == "int" and s[1].a[0] < len(v.a) - 4:
                vals = list(v.a[4:])
                vals[s[1].a[0]] = nv
                return agg(*v.a[:4], vals)
            if v.op == "upd" and v.a[1] == s:
                v = v.a[0]
            if nv is mk_idx(v, s[1]):
                return v
            return T_("upd", v, s, nv)
        if k == "slot":
            base = v
            if v.op == "seq" and len(v.a) > 1:
                g = v.a[-1]
                if g.a[0] == "insabsent" and not g.a[2] and g.a[3] is s[1]:
                    base = mk_seq(*v.a[:-1]) if len(v.a) > 2 else v.a[0]
                    if base.op == "empty":
                        base = EMPTY
            old = T_("slotor", base, s[1], s[2])
            if nv is old:
                return v
            if nv.op == "seq" and nv.a[0] is old:
                gs = []
                for g in nv.a[1:]:
                    if g.a[0] in ("push", "ins1"):
                        gs.append(mk_gen("grp", g.a[1], g.a[2], s[1], g.a[3]))
                    else:
                        gs = None
                        break
                if gs:
                    return mk_seq(base, *gs)
            if base.op == "upd" and base.a[1] == s:
                base = base.a[0]
            return T_("upd", base, s, nv)
        if k == "at":
            if s[1] == "map":
                return mk_seq(v, mk_gen("ins", TRUE, (), s[2], nv))
            flat, leaf = [], nv
            base = T_("call", s[1], v, s[2])
            for r in rest:
                flat.append(r[1] if r[0] == "f" else str(r))
            if s[1] == "EGraph[]":
                return mk_seq(v, mk_gen("set", TRUE, (), s[2], tstr(".".join(map(str, flat))), new))
            if v.op == "upd" and v.a[1] == s:
                v = v.a[0]
            return T_("upd", v, s, nv)
        raise Inconclusive("store step %s" % (s,))

    def store(self, st, ptr, v):
        o, path = ptr.a
        s = st.copy()
        s.env[o] = self.set_path(s.env.get(o, T_("uninit")), path, v)
        return s

    # ---- places -----------------------------------------------------------------------
    def steps_of(self, st, frame, proj, i):
        """turn proj[i:] into path steps until next deref; yields (steps, next index)"""
        steps = []
        variant = ""
        while i < len(proj):
            e = proj[i]
            k = e[0]
            if k == "deref":
                break
            if k == "downcast":
                variant = e[1]
            elif k == "field":
                if e[3] not in TRANSPARENT_FIELDS:
                    steps.append(("f", e[2], variant))
                variant = ""
            elif k == "index":
                steps.append(("i", self.val(st, st.env[(frame, int(e[1]))])))
            elif k == "constidx":
                if e[2] in ("true", True):
                    steps.append(("ie", int(e[1])))
                else:
                    steps.append(("i", tint(int(e[1]))))
            elif k == "subslice":
                steps.append(("ss", int(e[1]), int(e[2]), str(e[3])))
            else:
                raise Inconclusive("projection %s" % (e,))
            i += 1
        return steps, i

    def read_steps(self, v, steps):
        for s in steps:
            if v.op == "ptr":
                # projection through a pointer without explicit deref (Box internals)
                continue
            if s[0] == "ie":
                v = T_("idxend", v, s[1])
            elif s[0] == "ss":
                if s[2] == 0 and s[3] in ("true", "True"):
                    v = T_("slicefrom", v, tint(s[1])) if s[1] else v
                else:
                    v = T_("slice", v, s[1], s[2], s[3])
            else:
                v = self.get_step(v, s)
        return v

    def read(self, st, frame, place):
        o = (frame, int(place[0]))
        v = st.env.get(o)
        if v is None:
            v = T_("uninit")
        proj = place[1]
        i = 0
        while i < len(proj):
            if proj[i][0] == "deref":
                if v.op == "ptr":
                    v = self.load(st, v)
                i += 1
                continue
            steps, i = self.steps_of(st, frame, proj, i)
            v = self.read_steps(v, steps)
        return v

    def addr(self, st, frame, place):
        """object and path of a place"""
        o, path = (frame, int(place[0])), ()
        proj = place[1]
        i = 0
        while i < len(proj):
            if proj[i][0] == "deref":
                cur = st.env.get(o, T_("uninit"))
                cur = self.read_steps(cur, path)
                if cur.op == "ptr":
                    o, path = cur.a[0], cur.a[1]
                i += 1
                continue
            steps, i = self.steps_of(st, frame, proj, i)
            cur = self.read_steps(st.env.get(o, T_("uninit")), path)
            if cur.op == "ptr":     # Box internals: stay at the pointer
                continue
            path = path + tuple(steps)
        return o, path

    def write(self, st, frame, place, v):
        if not place[1]:
            st = st.copy()
            st.env[(frame, int(place[0]))] = v
            return st
        o, path = self.addr(st, frame, place)
        for s in path:
            if s[0] in ("ie", "ss"):
                raise Inconclusive("write through %s" % (s,))
        st = st.copy()
        st.env[o] = self.set_path(st.env.get(o, T_("uninit")), path, v)
        return st

    # ---- operands ---------------------------------------------------------------------
    def const(self, st, frame, c, body):
        k = c["k"]
        if k == "fn":
            return T_("fn", c["path"], c.get("res") or "", tuple(c.get("args") or ()), c.get("trait") or "", body.crate)
        if k == "int":
            return tint(int(c["v"]))
        if k == "bool":
            return tbool(c["v"])
        if k == "str":
            return tstr(c["v"])
        if k == "char":
            return T_("char", c["v"])
        if k == "bytes":
            return T_("bytes", tuple(int(x) for x in c["v"]))
        if k == "param":
            return T_("cparam", c["name"])
        if k == "zst":
            if c["ty"] == "()":
                return UNIT
            return T_("zst", c["ty"])
        if k == "promoted":
            pb = body.promoted[int(c["idx"])] if c["owner"] == body.path or True else None
            rs = self.run_body(st, pb, [], frame + "/p%s" % c["idx"])
            if len(rs) != 1:
                raise Inconclusive("promoted constant")
            return rs[0][1]
        if k == "static":
            b = self.facts.find(c["path"], body.crate)
            if c["state"] not in (True, "true") and b is not None and b.kind == "const" and len(b.blocks) <= 4:
                rs = self.run_body(st, b, [], frame + "/c:" + short(c["path"]))
                if len(rs) == 1 and rs[0][1].op != "uninit":
                    return rs[0][1]
            return T_("static", short(c["path"]))
        if c.get("item"):
            lim = int_limit(short(c["item"]))
            if lim is not None:
                return tint(lim)
            b = self.facts.find(c["item"], body.crate)
            if b is not None and b.kind == "const" and len(b.blocks) <= 4 and not self.opaque_item(c["item"]):
                rs = self.run_body(st, b, [], frame + "/c:" + short(c["item"]))
                if len(rs) == 1 and rs[0][1].op != "uninit":
                    return rs[0][1]
            return T_("item", short(c["item"]))
        if k == "adtbits":
            # fieldless enum constant or newtype
            vs = self.facts.variants(c["ty"])
            if vs and all(not f for _, f in vs) and int(c["v"]) < len(vs):
                return agg("adt", lastseg(strip_generics(c["ty"])), vs[int(c["v"])][0], (), ())
            if strip_generics(c["ty"]).endswith("Option") and int(c["v"]) == 0:
                return NONE
            return T_("bits", c["ty"], c["v"])
        dbg = c.get("dbg", "")
        return T_("const", dbg)

    def opaque_item(self, p):
        return short(p) in self.opaque

    def operand(self, st, frame, o, body):
        if o[0] == "const":
            return self.const(st, frame, o[1], body)
        if o[0] in ("copy", "move"):
            return self.read(st, frame, o[1])
        raise Inconclusive("operand")

    # ---- rvalues ----------------------------------------------------------------------
    def rvalue(self, st, frame, rv, body):
        k = rv[0]
        if k == "use":
            return self.operand(st, frame, rv[1], body)
        if k == "ref":
            if rv[1] in (True, "true"):
                o, path = self.addr(st, frame, rv[2])
                for s in path:
                    if s[0] in ("ie", "ss"):
                        raise Inconclusive("mutable borrow through %s" % (s,))
                return T_("ptr", o, tuple(path))
            return self.read(st, frame, rv[2])
        if k == "repeat":
            n = rv[2]
            return T_("repeat", self.operand(st, frame, rv[1], body), tint(int(n)) if n.isdigit() else T_("cparam", n))
        if k == "cast":
            v = self.operand(st, frame, rv[2], body)
            if v.op in ("ptr", "fn") or v.op == "agg":
                return v
            if rv[1].startswith(("PtrToPtr", "Transmute", "BoxDeref", "PointerCoercion", "Unsize")):
                return v
            if "PointerCoercion" in rv[1] or "Ptr" in rv[1]:
                return v
            return mk_cast(rv[3] + "<-" + rv[4], v)
        if k == "bin":
            op = rv[1]
            a = self.val(st, self.operand(st, frame, rv[2], body))
            b = self.val(st, self.operand(st, frame, rv[3], body))
            if op == "Eq":
                return mk_eq(a, b)
            if op == "Ne":
                return mk_not(mk_eq(a, b))
            if op == "Lt":
                return mk_lt(a, b)
            if op == "Gt":
                return mk_lt(b, a)
            if op == "Le":
                return mk_not(mk_lt(b, a))
            if op == "Ge":
                return mk_not(mk_lt(a, b))
            if rv[4] == "bool":
                if op == "BitAnd":
                    return unf(f_and(a, b))
                if op == "BitOr":
                    return unf(f_or(a, b))
                if op == "BitXor":
                    return unf(f_ite(a, f_not(b), f_atom(b)))
            if op.endswith("WithOverflow"):
                return tup(mk_bin(op[:-12], a, b), FALSE)
            if op.endswith("Unchecked"):
                op = op[:-9]
            return mk_bin(op, a, b)
        if k == "un":
            a = self.val(st, self.operand(st, frame, rv[2], body))
            if rv[1] == "Not":
                if a.op == "ite":
                    return unf(f_not(a))
                if rv[3] == "bool":
                    return mk_not(a)
                return T_("un", "Not", a)
            if rv[1] == "PtrMetadata":
                return mk_len(a)
            return T_("un", rv[1], a)
        if k == "discr":
            x = self.val(st, self.read(st, frame, rv[1]))
            vs = tuple((int(a), n) for a, n in rv[2])
            kv = known_variant(x)
            if kv is not None:
                for a, n in vs:
                    if n == kv:
                        return tint(a)
            return T_("discr", x, vs)
        if k == "agg":
            ops = [self.operand(st, frame, o, body) for o in rv[5]]
            if rv[1] == "adt":
                p = lastseg(strip_generics(rv[2]))
                if p in ("Box", "Rc", "Arc", "Cow") or rv[2].startswith(("std::mem::Man", "std::mem::Maybe")):
                    return ops[0]
                if p == "RangeFull":
                    return T_("rangefull")
                return agg("adt", p, rv[3], [str(x) for x in rv[4]][: len(ops)], ops)
            if rv[1] == "closure":
                return agg("closure", rv[2], body.crate, (), ops)
            return agg(rv[1], "", "", (), ops)
        if k == "other":
            return T_("other", rv[1])
        raise Inconclusive("rvalue %s" % k)

    def isbool(self, t):
        return t.op == "call" or t.op in ("field", "phi", "param", "idx")

    # ---- control flow -----------------------------------------------------------------
    def run_body(self, st, body, args, frame, self_clo=None):
        """returns [(state, return value)]"""
        body = self.redirect.get(body, body)
        body.analyse()
        self.visited.add(body.path)
        s = st.copy()
        for i, a in enumerate(args):
            s.env[(frame, i + 1)] = a
        self.stack.append(body)
        try:
            outs = self.region(body, frame, [(0, s)], None, None)
        finally:
            self.stack.pop()
        res = []
        for k, s, p in outs:
            rv = s.env.get((frame, 0), UNIT)
            env = {o: v for o, v in s.env.items() if not (o[0] == frame or o[0].startswith(frame + "/"))}
            res.append((St(env, s.conj, s.ev, s.loops, s.loc), rv))
        return self.dedup_rets(res)

    def dedup_rets(self, res):
        groups = {}
        for s, rv in res:
            k = (rv, frozenset(s.env.items()), s.ev)
            groups.setdefault(k, []).append(s)
        out = []
        for (rv, _, _), ss in groups.items():
            for s in self.simplify(ss, [rv]):
                out.append((s, rv))
        return out

    def simplify(self, ss, extra=()):
        """states equal but for their guards: canonicalise the disjunction of guards"""
        # drop guards about finished loops that no live value mentions
        live = set()
        if ss:
            for v in ss[0].env.values():
                live |= v.fv
            for v in extra:
                live |= v.fv
            for e in ss[0].ev:
                live |= e.fv
            live |= {L.id for L in ss[0].loops}
        if len(ss) == 1:
            s = ss[0]
            if any(self.gone(s, t, live) for t in s.conj):
                s = s.copy()
                s.conj = {t: v for t, v in s.conj.items() if not self.gone(s, t, live)}
            return [s]
        cs = []
        for s in ss:
            c = frozenset((t, v) for t, v in s.conj.items() if not self.gone(s, t, live))
            if c not in cs:
                cs.append(c)
        ch = True
        while ch and len(cs) > 1:
            ch = False
            for i in range(len(cs)):
                for j in range(len(cs)):
                    if i == j:
                        continue
                    a, b = cs[i], cs[j]
                    if a <= b:
                        cs.pop(j)
                        ch = True
                        break
                    # a = X + t, b contains X + not t  -> b without t
                    d = a - b
                    if len(d) == 1:
                        (t, v), = d
                        if (t, not v) in b:
                            nb = b - {(t, not v)}
                            cs[j] = nb
                            ch = True
                            break
                if ch:
                    break
            if not ch:
                m = self.merge_is(cs)
                if m is not None:
                    cs = m
                    ch = True
        base = ss[0]
        loc = ss[0].loc
        for s in ss[1:]:
            loc &= s.loc
        return [St(base.env, dict(c), base.ev, base.loops, loc) for c in cs]

    def gone(self, s, t, live):
        """an atom about an iteration of a finished loop that nothing live mentions"""
        d = t.fv - live
        if not d:
            return False
        return t in s.loc or any(x.op == "iv" and x.a[0] in d for x in subterms(t))

    def merge_is(self, cs):
        """all variants of an enum present with an equal remainder -> drop the test"""
        for c in cs:
            for t, v in c:
                if t.op == "is" and v:
                    x, w, vs = t.a
                    rest = c - {(t, v)}
                    have = []
                    for u in vs:
                        k = rest | {(T_("is", x, u, vs), True)}
                        if k in cs:
                            have.append(k)
                    if len(have) == len(vs):
                        return [k for k in cs if k not in have] + [rest]
        return None

    def prune(self, st, frame, live):
        env = st.env
        keep = {}
        work = []
        for o, v in env.items():
            if o[0] == frame:
                if isinstance(o[1], int) and o[1] not in live:
                    continue
            keep[o] = v
        # objects reachable through pointers stay
        work = list(keep.values())
        while work:
            v = work.pop()
            for o in v.ptrs:
                if o not in keep and o in env:
                    keep[o] = env[o]
                    work.append(env[o])
        return St(keep, st.conj, st.ev, st.loops, st.loc)

    def region(self, body, frame, start, within, header):
        pend = {}
        outs = []

        def enter(bb, s, src=None):
            if within is not None and bb not in within:
                outs.append(("exit", s, bb))
            elif bb == header and src is not None:
                outs.append(("back", s, None))
            else:
                pend.setdefault(bb, []).append(s)
        for bb, s in start:
            pend.setdefault(bb, []).append(s)
        while pend:
            bb = min(pend, key=lambda b: body.rpo[b])
            ss = pend.pop(bb)
            ss = [self.prune(s, frame, body.live[bb]) for s in ss]
            if len(ss) > 1:
                groups = {}
                for s in ss:
                    groups.setdefault((frozenset(s.env.items()), s.ev), []).append(s)
                ss = [x for g in groups.values() for x in self.simplify(g)]
            else:
                ss = self.simplify(ss)
            if len(ss) > self.max_parts:
                raise Inconclusive("too many partitions in %s" % body.path)
            if bb in body.loops and bb != header:
                for s in ss:
                    lset = body.loops[bb]
                    key = "%s@%d" % (frame, bb)

                    def bodyfn(s2, L, bb=bb, lset=lset):
                        return self.region(body, frame, [(bb, s2)], lset, bb)
                    for k, s2, tgt in self.run_loop(s, key, bodyfn, where=(body, bb)):
                        if k == "exit":
                            enter(tgt, s2, bb)
                        else:
                            outs.append((k, s2, tgt))
                continue
            for s in ss:
                for s2, tgt in self.block(body, frame, bb, s):
                    if tgt == "return":
                        outs.append(("ret", s2, None))
                    else:
                        enter(tgt, s2, bb)
        return outs

    def block(self, body, frame, bb, st):
        self.steps += 1
        if self.steps > 400000:
            raise Inconclusive("step budget")
        if DEADLINE is not None and self.steps % 64 == 0 and time.time() > DEADLINE:
            raise Inconclusive("time budget")
        blk = body.blocks[bb]
        for pl, rv, sp in blk["s"]:
            if rv[0] == "setdiscr":
                raise Inconclusive("setdiscr")
            v = self.rvalue(st, frame, rv, body)
            st = self.write(st, frame, pl, v)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(st, int(t[1]))]
        if k == "drop":
            return [(st, int(t[2]))]
        if k == "return":
            return [(st, "return")]
        if k == "unreachable":
            return []
        if k == "assert":
            return [(st, int(t[3]))]
        if k == "switch":
            return self.switch(body, frame, st, t)
        if k == "call":
            return self.callterm(body, frame, bb, st, t)
        raise Inconclusive("terminator %s" % k)

    def switch(self, body, frame, st, t):
        v = self.val(st, self.operand(st, frame, t[1], body))
        ty = t[4]
        out = []
        if v.op == "discr":
            x, vs = v.a
            names = tuple(n for _, n in vs)
            used = []
            for val, tgt in t[2]:
                n = dict(vs).get(int(val))
                if n is None:
                    continue
                used.append(n)
                for s in assume(st, mk_is(x, n, names), True):
                    out.append((s, int(tgt)))
            ss = [st]
            for n in used:
                ss = [s2 for s in ss for s2 in assume(s, mk_is(x, n, names), False)]
            if len(used) < len(names):
                out += [(s, int(t[3])) for s in ss]
            return out
        if ty == "bool":
            zero = [int(tgt) for val, tgt in t[2] if int(val) == 0]
            one = [int(tgt) for val, tgt in t[2] if int(val) == 1]
            f = zero[0] if zero else int(t[3])
            o = one[0] if one else int(t[3])
            for s in assume(st, v, False):
                out.append((s, f))
            for s in assume(st, v, True):
                out.append((s, o))
            return out
        ss = [st]
        for val, tgt in t[2]:
            c = T_("char", chr(int(val))) if ty == "char" else tint(int(val))
            e = mk_eq(v, c)
            nss = []
            for s in ss:
                out += [(x, int(tgt)) for x in assume(s, e, True)]
                nss += assume(s, e, False)
            ss = nss
        out += [(s, int(t[3])) for s in ss]
        return out

    def callterm(self, body, frame, bb, st, t):
        f = self.operand(st, frame, t[1], body)
        args = [self.operand(st, frame, o, body) for o in t[2]]
        dest, tgt = t[3], t[4]
        c = Call()
        c.E, c.frame, c.bb, c.span = self, frame, bb, t[5]
        c.key = "%s/%d" % (frame, bb)
        c.args = args
        diverges = tgt in (None, "null")
        c.unused = not diverges and not dest[1] and self.dead_after(body, int(tgt), int(dest[0]))
        if diverges:
            msg = args[0] if args else UNIT
            name = short(f.a[0]) if f.op == "fn" else "?"
            self.panics.append((name, [self.safe_val(st, a) for a in args], dict(st.conj), t[5], body.path))
            return []
        out = []
        for s, v in self.call_value(st, f, args, c, body.crate):
            s = self.write(s, frame, dest, v)
            out.append((s, int(tgt)))
        return out

    def dead_after(self, body, bb, loc):
        return loc != 0 and loc not in body.live.get(bb, ())

    def safe_val(self, st, a):
        try:
            return self.freeze(st, a)
        except Inconclusive:
            return a

    # ---- calls ------------------------------------------------------------------------
    def call_value(self, st, f, args, c, crate=None):
        """apply function value f"""
        n = 0
        fv = f
        while fv.op == "ptr" and n < 4:
            fv = self.load(st, fv)
            n += 1
        if fv.op == "agg" and fv.a[0] == "closure":
            b = self.facts.find(fv.a[1], fv.a[2])
            if b is None:
                return [(st, T_("call", "@closure", *[self.freeze(st, a) for a in args]))]
            key = c.key + "!" + str(b.path.count("closure")) + b.path[-12:]
            me = f
            if f.op != "ptr" and fv.ptrs == E0:
                me = fv
            elif f.op != "ptr":
                me = fv
            if not b.locals[1][0].startswith("&"):      # FnOnce body: environment by value
                return self.run_body(st, b, [fv] + list(args), key)
            # the body may borrow its own environment mutably
            if me.op != "ptr":
                o = (key + "%env", 0)
                st = st.set(o, me)
                me = T_("ptr", o, ())
                rs = self.run_body(st, b, [me] + list(args), key)
                return [(self.drop_obj(s, o), v) for s, v in rs]
            return self.run_body(st, b, [me] + list(args), key)
        if fv.op == "fn":
            return self.call_fn(st, fv, args, c, crate)
        return [(st, T_("call", "@apply", self.freeze(st, fv), *[self.freeze(st, a) for a in args]))]

    def drop_obj(self, s, o):
        s = s.copy()
        s.env.pop(o, None)
        return s

    def call_fn(self, st, f, args, c, crate):
        path, res, gargs, trait, crate = f.a
        c.path, c.res, c.gargs, c.args = path, res, gargs, list(args)
        c.name = canon_name(short(path))
        nm = c.name
        ctor = self.facts.ctor(path)
        if ctor:
            adt, var, names = ctor
            return [(st, agg("adt", adt, var, names, args))]
        ct = CTORS.get(nm)
        if ct:
            return [(st, agg("adt", ct[0], ct[1], ("0",), args))]
        # closures through Fn* traits
        if nm in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            a = args[1] if len(args) > 1 else UNIT
            a = self.val(st, a) if a.op == "ptr" else a
            if a.op == "agg" and a.a[0] == "tuple":
                return self.call_value(st, args[0], list(a.a[4:]), c, crate)
            return self.opaque_call(st, c)
        m = MODELS.get(nm)
        b = None
        if res or path:
            b = self.facts.find(res or path, crate)
            if b is None and trait and args:
                b = self.facts.resolve_dynamic(self, st, nm, args, gargs)
        b = self.redirect.get(b, b)
        if b is not None and b.kind in ("fn", "closure"):
            bn = short(b.path)
            if bn.startswith("SynthLanguage::") and bn != "SynthLanguage::is_var" and bn not in self.inline:
                return self.opaque_call(st, c, bn, pure=bn in PURELANG)
            if bn in self.opaque or nm in self.opaque:
                return self.opaque_call(st, c, nm if nm in self.opaque else bn)
            derived = self.facts.derived(b)
            if not derived:
                if any(x.path == b.path and x.crate == b.crate for x in self.stack):
                    self.recs[self.alias.get(bn, bn)] = b
                    return self.opaque_call(st, c, self.alias.get(bn, bn))
                if len(self.stack) > 25:
                    raise Inconclusive("inline depth")
                if len(self.stack) == 1 and self.stack[0].kind == "fn" and self.forwarder(self.stack[0]):
                    # pure forwarding wrapper of the entry: recursion of the callee is recursion of the entry
                    root = self.stack[0]
                    vals = [self.safe_val(st, a) for a in args]
                    if len(vals) == root.argc and all(v.op == "param" and v.a[0] == i for i, v in enumerate(vals)):
                        self.alias[bn] = short(root.path)
                key = "%s/%d" % (c.key, 0)
                return self.run_body(st, b, args, key)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        return self.opaque_call(st, c)

    def forwarder(self, b):
        """body that does nothing but return one call's result"""
        ts = [blk["t"] for blk in b.blocks if blk is not None]
        calls = [t for t in ts if t[0] == "call"]
        return (len(calls) == 1 and calls[0][3] and int(calls[0][3][0]) == 0 and not calls[0][3][1]
                and all(t[0] in ("call", "goto", "return", "drop", "unreachable") for t in ts))

    def freeze(self, st, t):
        """snapshot: pointers replaced by the values they point to; closures by their lambda"""
        if not t.ptrs and not self.has_clo(t):
            return t
        if t.op == "ptr":
            return self.freeze(st, self.load(st, t))
        if t.op == "agg" and t.a[0] == "closure":
            return T_("closure", short(t.a[1]), *[self.freeze(st, x) for x in t.a[4:]])
        return TM.rebuild(t, lambda x: self.freeze(st, x))

    def has_clo(self, t):
        return False if t.op != "agg" else (t.a[0] == "closure" or any(self.has_clo(x) for x in t.a[4:]))

    def ptrs_in(self, t):
        r = []
        st = [t]
        while st:
            x = st.pop()
            if x.op == "ptr":
                r.append(x)
            elif x.ptrs:
                for y in x.a:
                    if isinstance(y, T):
                        st.append(y)
        return r

    def opaque_call(self, st, c, name=None, pure=False):
        name = models.typed(name or c.name, c)
        # run callbacks for their effects and record their results
        args = []
        for i, a in enumerate(c.args):
            fv = a
            if fv.op == "ptr":
                fv = self.val(st, fv)
            if fv.op == "agg" and fv.a[0] == "closure":
                st, lam = self.lambda_of(st, a, c, i)
                args.append(lam)
            elif fv.op in ITERS:
                st, m = self.materialize(st, fv, c.sub("mat%d" % i))
                args.append(T_("iter", m))
            else:
                args.append(None)
        fz = [x if x is not None else self.freeze(st, a) for x, a in zip(args, c.args)]
        call = T_("call", name, *fz)
        if c.name not in MODELS and c.name not in PUREOK:
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        self.calls.append((call, dict(st.conj), c.span, c.key, tuple(b.path for b in self.stack)))
        if EFFECT.match(name) or EFFECT.match(strip_generics(c.path or "")):
            st = st.copy()
            st.ev = st.ev + (mk_gen("ev", TRUE, (), call),)
        if not pure:
            seen = set()
            for i, a in enumerate(c.args):
                if a.op == "agg" and a.a[0] == "closure":
                    continue
                for p in self.ptrs_in(a):
                    if p in seen:
                        continue
                    seen.add(p)
                    try:
                        self.load(st, p)
                    except Inconclusive:
                        continue
                    st = self.store(st, p, T_("post", i, call))
        return [(st, call)]

    def lambda_of(self, st, f, c, i):
        """summarise a callback passed to unknown code: effects as an unbounded loop, result as cases"""
        fv = self.val(st, f)
        b = self.facts.find(fv.a[1], fv.a[2])
        if b is None:
            return st, T_("closure", short(fv.a[1]))
        n = b.argc - 1
        self.lamdepth = getattr(self, "lamdepth", 0) + 1
        ps = [T_("lamtmp", self.lamdepth, k) for k in range(n)]
        cases = {}

        def bodyfn(s, L):
            outs = [("exit", s, "never")]
            L.binds = []
            for s2, v in self.call_value(s, f, ps, c):
                outs.append(("back", s2, v))
            return outs
        res = self.run_loop(st, c.sub("cb%d" % i), bodyfn)
        L = self.last_loop
        for conj, envv, s2, v in L.backs_full:
            g = f_conj([(t, x) for t, x in conj if t.op != "done"])
            v = self.freeze(s2, v) if v is not None else UNIT
            cases[v] = f_or(cases.get(v, FALSE), g)
        self.lamdepth -= 1
        lv = 0
        for v, g in cases.items():
            for x in subterms(v) | subterms(g):
                if x.op == "bv" and x.a[0] >= 1000:
                    lv = max(lv, (x.a[0] - 1000) // 10 + 1)
        memo, m = {}, {p: T_("bv", 1000 + 10 * lv + k) for k, p in enumerate(ps)}
        cs = {}
        for v, g in cases.items():
            v, g = subst(v, m, memo), subst(g, m, memo)
            cs[v] = f_or(cs.get(v, FALSE), g)
        items = sorted(cs.items(), key=lambda kv: kv[0].id)
        if len(items) == 1 and items[0][1] is TRUE:
            lam = T_("lam", n, items[0][0])
        else:
            lam = T_("lam", n, T_("cases", *[T_("case", g, v) for v, g in items]))
        outs = [s for k, s, p in res if k == "exit"]
        st2 = outs[0] if outs else st
        # keep entry guards only
        st2 = st2.copy()
        st2.conj = dict(st.conj)
        return st2, lam

    # ---- loops ------------------------------------------------------------------------
    def run_loop(self, st0, key, bodyfn, where=None):
        self.nloop += 1
        L = Loop(self.nloop, key)
        L.where = where
        self.loops[L.id] = L
        L.entry_env = dict(st0.env)
        L.entry_conj = dict(st0.conj)
        hdr = st0.copy()
        hdr.loops = st0.loops + (L,)
        L.enclosing = st0.loops
        mark_calls, mark_pan = len(self.calls), len(self.panics)
        idx_try = True
        for rnd in range(14):
            del self.calls[mark_calls:]
            del self.panics[mark_pan:]
            L.binds = [L.idxbind] if getattr(L, "idxbind", None) else []
            L.iterobj = None
            h = hdr.copy()
            h.ev = st0.ev
            outs = bodyfn(h, L)
            new = dict(hdr.env)
            for k, s, p in outs:
                if k != "back":
                    continue
                for o, v in hdr.env.items():
                    bv = s.env.get(o)
                    if bv is None or bv is v:
                        continue
                    new[o] = self.phi_merge(L, new[o], bv, (o,))
            if new == hdr.env:
                if idx_try and not L.binds:
                    idx_try = False
                    if self.index_loop(L, hdr, st0, outs):
                        continue
                break
            hdr.env = new
        else:
            raise Inconclusive("loop did not stabilise")
        # entry values of phis
        L.phis = {}
        for o, v in hdr.env.items():
            self.collect_phis(L, v, st0.env.get(o, T_("uninit")), (o,))
        base = set(st0.conj.items())
        L.backs, L.backs_full = [], []
        exits_early, exits_done, others = [], [], []
        for k, s, p in outs:
            loc = [(t, v) for t, v in s.conj.items() if (t, v) not in base]
            if k == "back":
                vals = {}
                for path in L.phis:
                    vals[path] = self.at(s.env.get(path[0]), path[1:], hdr.env.get(path[0]))
                L.backs.append((loc, vals, s.ev[len(st0.ev):]))
                L.backs_full.append((loc, s.env, s, p))
            elif k == "exit":
                done = any(t.op == "done" and v for t, v in loc)
                (exits_done if done else exits_early).append((loc, s, p))
            else:
                others.append((k, s, p))
        has_dom = bool(L.binds)
        L.finished = True
        # closed forms
        ren, binds = self.renaming(L)
        L.ren, L.cbinds = ren, binds
        cl = {}
        if has_dom:
            for path, (phi, init) in L.phis.items():
                v = self.close(L, path, phi, init)
                if v is not None:
                    cl[phi] = v
        L.closed = cl
        # per-iteration events
        evs = []
        for loc, vals, ev in L.backs:
            for e in ev:
                evs += self.wrap(L, f_conj([(t, v) for t, v in loc if t.op != "done"]), e)
        D = FALSE
        for loc, s, p in exits_early:
            D = f_or(D, f_conj([(t, v) for t, v in loc if t.op != "done"]))
        for pan in self.panics[mark_pan:]:
            if any(L.id in t.fv for t in pan[2]):
                loc = [(t, v) for t, v in pan[2].items() if (t, v) not in base and t.op != "done"]
                D = f_or(D, f_conj(loc))
        ex = None
        if has_dom and D is not FALSE:
            ex = self.exists_of(L, D)
        result = []
        for loc, s, p in exits_done:
            n = St(dict(s.env), {}, st0.ev + tuple(evs) + s.ev[len(st0.ev):], st0.loops, s.loc)
            memo = {}
            if cl:
                n.env = {o: subst(v, cl, memo) for o, v in n.env.items()}
            for t, v in s.conj.items():
                if t.op == "done":
                    continue
                t2 = subst(t, cl, memo) if cl else t
                if t2.op == "not":
                    t2, v = t2.a[0], not v
                if t2 in (TRUE, FALSE):
                    continue
                if L.id in t2.fv and (t, v) not in base:
                    if not (t2.fv and self.only_phi(t2, L)):
                        continue
                n.conj[t2] = v
            ss = [n]
            if ex is not None:
                ss = assume(n, ex, False)
            # boolean flags set inside the loop
            for s2 in ss:
                for s3 in self.flags(L, s2, st0):
                    result.append(("exit", s3, p))
        for loc, s, p in exits_early:
            n = St(dict(s.env), dict(s.conj), st0.ev + tuple(evs) + s.ev[len(st0.ev):], st0.loops,
                   s.loc | frozenset(t for t, _ in loc if L.id in t.fv))
            for t in [t for t in n.conj if t.op == "done"]:
                n.conj.pop(t)
            ss = assume(n, ex, True) if ex is not None else [n]
            for s2 in ss:
                result.append(("exit", s2, p))
        for k, s, p in others:
            loc = frozenset(t for t in s.conj if L.id in t.fv)
            result.append((k, St(s.env, s.conj, s.ev, st0.loops, s.loc | loc), p))
        self.last_loop = L
        return result

    def only_phi(self, t, L):
        return not any(x.op == "iv" and x.a[0] == L.id for x in subterms(t))

    def flags(self, L, s, st0):
        """phi slots that are constants flipped under a guard: split on 'some iteration flipped it'"""
        states = [s]
        for path, (phi, init) in L.phis.items():
            if phi in L.closed or init.op not in ("bool", "int", "agg") or (init.op == "agg" and len(init.a) > 4):
                continue
            outv, guard, okk = None, FALSE, True
            for loc, vals, ev in L.backs:
                v = vals[path]
                if v is phi:
                    continue
                if v is init and not any(phi in subterms(t) for t, _ in loc):
                    # explicit reset under a guard: not a monotone flag
                    okk = False
                    break
                if v.op != init.op or v.fv:
                    okk = False
                    break
                if outv is not None and outv is not v:
                    okk = False
                    break
                outv = v
                guard = f_or(guard, f_conj([(t, x) for t, x in loc if t.op != "done"
                                            and phi not in subterms(t)]))
            if not okk or outv is None or not L.binds:
                continue
            ex = self.exists_of(L, guard)
            if L.id in ex.fv and not self.only_phi(ex, L):
                continue
            nxt = []
            for x in states:
                if not any(phi in subterms(v) for v in x.env.values()):
                    nxt.append(x)
                    continue
                for val, rep in ((True, outv), (False, init)):
                    for y in assume(x, ex, val):
                        y = y.copy()
                        memo = {}
                        y.env = {o: subst(v, {phi: rep}, memo) for o, v in y.env.items()}
                        nxt.append(y)
            states = nxt
        return states

    def index_loop(self, L, hdr, st0, outs):
        """while i < n { .. i += 1 } is a range loop"""
        for o, v in list(hdr.env.items()):
            if v.op != "phi" or v.a[0] != L.id or len(v.a[1]) != 1:
                continue
            init = st0.env.get(o)
            backs = [s.env.get(o) for k, s, p in outs if k == "back"]
            if not backs or any(b is not mk_bin("Add", v, tint(1)) for b in backs):
                continue
            exits = [s for k, s, p in outs if k == "exit"]
            bound = None
            for s in exits:
                for t, x in s.conj.items():
                    if t.op == "lt" and t.a[0] is v and x is False and L.id not in t.a[1].fv:
                        bound = t.a[1]
            if bound is None or not all(s.conj.get(T_("lt", v, bound)) is True for k, s, p in outs if k == "back"):
                continue
            L.indexslots[(o,)] = bound
            dom = canon_dom(T_("iter", T_("range", init, bound)))
            L.idxbind = (L.iv(0), dom)
            L.binds = [L.idxbind]
            hdr.env[o] = mk_bin("Add", L.iv(0), init) if init.op == "int" else mk_bin("Add", init, L.iv(0))
            L.idxval = hdr.env[o]
            L.idxlt = mk_lt(L.idxval, bound)
            # the test is the end of the range
            if L.idxlt.op == "lt":
                IDX[L.idxlt] = T_("done", L.id)
            return True
        return False

    def phi_merge(self, L, h, b, path):
        if h is b:
            return h
        if path in L.indexslots:
            return h
        if h.op == "phi" and h.a == (L.id, path):
            return h
        if h.op == "agg" and b.op == "agg" and h.a[:4] == b.a[:4] and len(h.a) == len(b.a) and h.a[0] != "array":
            names = h.a[3] or tuple(str(i) for i in range(len(h.a) - 4))
            vals = [self.phi_merge(L, x, y, path + (("f", n, h.a[2]),))
                    for x, y, n in zip(h.a[4:], b.a[4:], names)]
            return agg(*h.a[:4], vals)
        # same base with different updated fields: phi the fields
        if b.op == "upd" and isinstance(b.a[1], tuple) and b.a[1][0] == "f":
            base, ups = self.peel(b)
            hb, hups = self.peel(h)
            if base is hb:
                r = h
                for s in set(ups) | set(hups):
                    hv = self.get_step(h, s)
                    bv = self.get_step(b, s)
                    m = self.phi_merge(L, hv, bv, path + (s,))
                    r = self.set_path(r, (s,), m)
                return r
        return T_("phi", L.id, path)

    def peel(self, t):
        ups = {}
        while t.op == "upd" and isinstance(t.a[1], tuple) and t.a[1][0] == "f":
            ups.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        return t, ups

    def collect_phis(self, L, v, init, path):
        if v is init:
            return
        if v.op == "phi" and v.a[0] == L.id:
            L.phis[v.a[1]] = (v, init)
            return
        if v.op == "agg" and v.a[0] != "array":
            names = v.a[3] or tuple(str(i) for i in range(len(v.a) - 4))
            for x, n in zip(v.a[4:], names):
                self.collect_phis(L, x, mk_field(init, n, v.a[2]), path + (("f", n, v.a[2]),))
        elif v.op == "upd":
            base, ups = self.peel(v)
            for s, x in ups.items():
                self.collect_phis(L, x, self.get_step(init, s), path + (s,))

    def at(self, v, steps, hv):
        if v is None:
            return T_("uninit")
        for s in steps:
            v = self.get_step(v, s)
        return v

    def renaming(self, L):
        d = 0
        binds = []
        ren = {}
        # depth above everything bound below: fixed large stride keeps names canonical
        for i, (iv, dom) in enumerate(L.binds):
            ren[iv] = None
        return ren, binds

    def bind_terms(self, L, ts):
        """alpha-rename loop indices of L inside ts; returns (binds, renamed ts)"""
        d = max([0] + [t.bvd if t.bvd < 500 else 0 for t in ts] + [dom.bvd if dom.bvd < 500 else 0 for _, dom in L.binds])
        used = set()
        for t in ts:
            for x in subterms(t):
                if x.op == "iv" and x.a[0] == L.id:
                    used.add(x)
        for iv, dom in reversed(L.binds):
            if iv in used:
                for x in subterms(dom):
                    if x.op == "iv" and x.a[0] == L.id:
                        used.add(x)
        bs = [(iv, dom) for iv, dom in L.binds if iv in used or len(L.binds) == 1]
        m = {}
        n = len(bs)
        for i, (iv, dom) in enumerate(bs):
            m[iv] = T_("bv", d + n - i)
        memo = {}
        binds = [T_("bind", m[iv], subst(dom, m, memo)) for iv, dom in bs]
        return binds, [subst(t, m, memo) for t in ts]

    def deps(self, L):
        """loops whose indices or carried values L's transfer functions mention"""
        d = getattr(L, "deps_", None)
        if d is not None:
            return d
        d = set()
        for _, dom in L.binds:
            d |= dom.fv
        for phi, init in L.phis.values():
            d |= init.fv
        for loc, vals, ev in L.backs:
            for t, _ in loc:
                d |= t.fv
            for v in vals.values():
                d |= v.fv
        L.deps_ = d = d - {L.id}
        for i in list(d):
            M = self.loops.get(i)
            if M is not None and M.finished:
                d |= self.deps(M) - {L.id}
        return d

    def tag(self, L, ts):
        """mark loop-carried values as those of the iteration the enclosing indices name"""
        ps = set()
        for t in ts:
            if t.fv:
                ps |= {x for x in subterms(t) if x.op == "phi"}
        m = {}
        for p in ps:
            M = self.loops.get(p.a[0])
            if M is None:
                continue
            if M is L:
                ivs = [iv for iv, _ in L.binds]
            elif L in M.enclosing and L.id in self.deps(M):
                ivs = []
            else:
                continue
            d = self.deps(M)
            for N in M.enclosing:
                if N.id in d:
                    ivs += [iv for iv, _ in N.binds]
            m[p] = T_("at", p, *ivs)
            self.atinfo[m[p]] = tuple(ivs)
        if not m:
            return ts
        memo = {}

        def go(t):
            if t in m:
                return m[t]
            if t.op == "at" or not t.fv:
                return t
            r = memo.get(t)
            if r is None:
                r = memo[t] = TM.rebuild(t, go)
            return r
        return [go(t) for t in ts]

    def wrap(self, L, guard, gen):
        """put a generator produced in one iteration of L under L's binders"""
        binds, ts = self.bind_terms(L, self.tag(L, [guard, gen]))
        g, e = ts
        kind, g0, b0 = e.a[:3]
        full = f_and(g, g0)
        if full is FALSE:
            return []
        return self.split_chain(kind, full, tuple(binds) + tuple(b0), e.a[3:])

    def split_chain(self, kind, guard, binds, payload):
        for i, b in enumerate(binds):
            bv, dom = b.a
            if dom.op == "ichain":
                atom = T_("chainsel", bv)
                out = []
                for val, d in ((True, dom.a[0]), (False, dom.a[1])):
                    g = subst(guard, {atom: tbool(val)})
                    if g is FALSE:
                        continue
                    nb = binds[:i] + (T_("bind", bv, d),) + binds[i + 1:]
                    out += self.split_chain(kind, g, nb, payload)
                return out
        for i, b in enumerate(binds):
            bv, dom = b.a
            if dom.op != "iter":
                continue
            c = dom.a[0]
            if not (c.op == "seq" and c.a[0].op == "empty" and len(c.a) > 1
                    and all(g.a[0] == "push" for g in c.a[1:]) and not (c.fv and False)):
                continue
            el = T_("idx", c, bv)
            hole = T_("hole", bv.a[0])
            memo = {}
            g2 = subst(guard, {el: hole}, memo)
            pl2 = [subst(x, {el: hole}, memo) for x in payload]
            bs2 = [T_("bind", x.a[0], subst(x.a[1], {el: hole}, memo)) for x in binds[i + 1:]]
            if any(occurs(bv, x) for x in [g2] + pl2 + bs2):
                continue
            out = []
            for gen in c.a[1:]:
                # fresh names for the inner binders
                ren = {}
                ib = []
                m2 = {}
                for k, x in enumerate(gen.a[2]):
                    t = T_("bv", 500 + 20 * i + k + 100 * (bv.a[0] if bv.a[0] < 4 else 4))
                    ren[x.a[0]] = t
                mm = {}
                ib = [T_("bind", ren[x.a[0]], subst(x.a[1], ren, mm)) for x in gen.a[2]]
                ig = subst(gen.a[1], ren, mm)
                ip = subst(gen.a[3], ren, mm)
                mm2 = {}
                gg = f_and(ig, subst(g2, {hole: ip}, mm2))
                if gg is FALSE:
                    continue
                nb = binds[:i] + tuple(ib) + tuple(T_("bind", x.a[0], subst(x.a[1], {hole: ip}, mm2)) for x in bs2)
                out += self.split_chain(kind, gg, nb, [subst(x, {hole: ip}, mm2) for x in pl2])
            return out
        return [canon_gen(kind, guard, binds, payload)]

    def exists_of(self, L, D):
        binds, ts = self.bind_terms(L, self.tag(L, [D]))
        gs = self.split_chain("ex", ts[0], tuple(binds), ())
        r = FALSE
        for g in gs:
            r = f_or(r, f_atom(TM.exists(g.a[2], g.a[1])))
        return unf(r)

    def close(self, L, path, phi, init):
        gens = []
        adds = []
        kind = None
        for loc, vals, ev in L.backs:
            v = vals[path]
            if v is phi:
                continue
            g = f_conj([(t, x) for t, x in loc if t.op != "done"])
            if v.op == "post":
                v = unpost(v, phi)
            if v.op == "seq" and v.a[0] is phi:
                if kind not in (None, "seq"):
                    return None
                kind = "seq"
                for e in v.a[1:]:
                    if any(phi in subterms(x) for x in e.a[3:]) or any(phi in subterms(x) for x in e.a[2]):
                        return None
                    g2, e2 = g, e
                    if phi in subterms(g2) or phi in subterms(e.a[1]):
                        r = self.uniq(phi, f_and(g2, e.a[1]), e)
                        if r is None:
                            return None
                        g2, e2 = r
                    gens.append((g2, e2))
            elif v.op == "bin" and v.a[0] == "Add" and (v.a[1] is phi or v.a[2] is phi):
                if kind not in (None, "add"):
                    return None
                kind = "add"
                e = v.a[2] if v.a[1] is phi else v.a[1]
                if phi in subterms(e) or phi in subterms(g):
                    return None
                adds.append((g, e))
            elif v.op == "bin" and v.a[0] == "Add" and v.a[1].op == "bin" and False:
                return None
            else:
                return None
        if kind is None:
            return init
        if kind == "add":
            gs = []
            for g, e in adds:
                gs += self.wrap(L, g, mk_gen("push", TRUE, (), e))
            gs = self.merge_gens(gs)
            return mk_bin("Add", T_("call", "Iterator::sum", mk_seq(T_("empty"), *gs)), init)
        gs = []
        for g, e in gens:
            gs += self.wrap(L, g, e)
        if any(L.id in x.fv for x in gs):
            # depends on another loop-carried value: keep as generators over phis only if no iv left
            pass
        gs = self.merge_gens(gs)
        b = init
        if b.op == "seq":
            return mk_seq(b.a[0], *(b.a[1:] + tuple(gs)))
        return mk_seq(b, *gs)

    def merge_gens(self, gs):
        out = []
        for g in gs:
            for i, h in enumerate(out):
                if h.a[0] == g.a[0] and h.a[2] == g.a[2] and h.a[3:] == g.a[3:]:
                    out[i] = mk_gen(h.a[0], f_or(h.a[1], g.a[1]), h.a[2], *h.a[3:])
                    break
            else:
                out.append(g)
        return sorted(out, key=lambda g: g.id) if len(out) > 1 and all(x.a[2] for x in out) else out

    def uniq(self, phi, guard, e):
        """push x guarded by 'x not already in the accumulator' """
        if e.a[0] != "push":
            return None
        atom = contains_atom(phi, e.a[3])
        if f_implies(guard, f_not(atom)):
            g = TM.f_cof_atom(guard, atom, False) if hasattr(TM, "f_cof_atom") else cof(guard, atom, False)
            if phi in subterms(g):
                return None
            return g, mk_gen("pushuniq", TRUE, (), e.a[3])
        return None

    # ---- iterators --------------------------------------------------------------------
    def elems(self, st, it, L, c, level=0):
        """[(state, element)] for one iteration of loop L over iterator term it"""
        o = it.op
        if o == "iter":
            coll = it.a[0]
            g = fusable(coll)
            if g is not None and not L.zipping:
                # elements of a collection built by one comprehension: iterate its source instead
                (b, dom), = [x.a for x in g.a[2]]
                out = []
                for s, _ in self.elems(st, dom, L, c, level):
                    m = {b: L.iv(level)}
                    for f in f_paths(subst(g.a[1], m)):
                        ss = [s]
                        for t, v in f:
                            ss = [y for x in ss for y in assume(x, t, v)]
                        out += [(x, subst(g.a[3], m)) for x in ss]
                return out
            dom = canon_dom(it)
            iv = L.iv(level)
            if not any(b[0] is iv for b in L.binds):
                L.binds.append((iv, dom))
            else:
                # zip-like partner sharing the index
                i = [i for i, b in enumerate(L.binds) if b[0] is iv][0]
                if dom is not L.binds[i][1] and not (L.binds[i][1].op in ("irev", "itake", "izip") and occurs(dom, L.binds[i][1])):
                    L.binds[i] = (iv, zip_dom(L.binds[i][1], dom))
            return [(st, mk_idx(coll, iv))]
        if o == "imap":
            out = []
            for s, v in self.elems(st, it.a[0], L, c, level):
                out += self.call_value(s, it.a[1], [v], self.subcall(c, "m"))
            return out
        if o == "ifilter":
            out = []
            for s, v in self.elems(st, it.a[0], L, c, level):
                for s2, b in self.call_value(s, it.a[1], [v], self.subcall(c, "f")):
                    out += [(s3, v) for s3 in assume(s2, self.val(s2, b), True)]
            return out
        if o == "ifmap":
            out = []
            for s, v in self.elems(st, it.a[0], L, c, level):
                for s2, b in self.call_value(s, it.a[1], [v], self.subcall(c, "fm")):
                    for s3 in assume(s2, mk_is(b, "Some", OPT), True):
                        out.append((s3, mk_field(b, "0", "Some")))
            return out
        if o == "ienum":
            dense = is_dense(it.a[0])
            ix = L.iv(level) if dense else T_("call", "rank", L.iv(level), self.freeze(st, it.a[0]))
            z, L.zipping = L.zipping, True
            try:
                return [(s, tup(ix, v)) for s, v in self.elems(st, it.a[0], L, c, level)]
            finally:
                L.zipping = z
        if o == "izip":
            out = []
            if not (is_dense(it.a[0]) and is_dense(it.a[1])):
                parts = []
                for x in it.a:
                    if not is_dense(x):
                        st, m = self.materialize(st, x, c.key + "z%d" % len(parts))
                        x = T_("iter", m)
                    parts.append(x)
                it = T_("izip", *parts)
            z, L.zipping = L.zipping, True
            try:
                for s, v in self.elems(st, it.a[0], L, c, level):
                    for s2, w in self.elems(s, it.a[1], L, c, level):
                        out.append((s2, tup(v, w)))
            finally:
                L.zipping = z
            return out
        if o == "irev":
            n = len(L.binds)
            r = self.elems(st, it.a[0], L, c, level)
            for i, (iv, dom) in enumerate(L.binds):
                if iv is L.iv(level) and dom.op != "irev":
                    L.binds[i] = (iv, T_("irev", dom))
            return r
        if o == "itake":
            r = self.elems(st, it.a[0], L, c, level)
            for i, (iv, dom) in enumerate(L.binds):
                if iv is L.iv(level):
                    L.binds[i] = (iv, T_("itake", dom, it.a[1]) if dom.op != "itake" else dom)
            return r
        if o == "ichain":
            iv = L.iv(level)
            tmp = Loop(L.id, L.key)
            tmp.zipping = True
            ra = self.elems(st, it.a[0], tmp, c, level)
            tmp2 = Loop(L.id, L.key)
            tmp2.zipping = True
            rb = self.elems(st, it.a[1], tmp2, c, level)
            if len(tmp.binds) != 1 or len(tmp2.binds) != 1:
                raise Inconclusive("chain of nested iterators")
            d = T_("ichain", tmp.binds[0][1], tmp2.binds[0][1])
            if not any(b[0] is iv for b in L.binds):
                L.binds.append((iv, d))
            atom = T_("chainsel", iv)
            out = []
            for s, v in ra:
                out += [(x, v) for x in assume(s, atom, True)]
            for s, v in rb:
                out += [(x, v) for x in assume(s, atom, False)]
            return out
        if o == "iflatmap":
            out = []
            for s, v in self.elems(st, it.a[0], L, c, level):
                rs = self.call_value(s, it.a[1], [v], self.subcall(c, "fl")) if it.a[1] is not UNIT else [(s, v)]
                for s2, w in rs:
                    w = self.val(s2, w)
                    if known_variant(w) == "None":
                        continue
                    if known_variant(w) == "Some":
                        out.append((s2, mk_field(w, "0", "Some")))
                        continue
                    sub = w if w.op in ITERS else T_("iter", w)
                    lv = level + 1
                    while any(b[0] is L.iv(lv) and b[1] is not sub for b in L.binds):
                        lv += 1
                    out += self.elems(s2, sub, L, c, lv)
            return out
        raise Inconclusive("iterator %s" % o)

    def subcall(self, c, n):
        d = Call()
        d.E, d.frame, d.bb, d.span, d.key = self, c.frame, c.bb, c.span, c.key + "." + n
        d.args, d.path, d.res, d.gargs, d.name = [], "", "", (), "callback"
        d.unused = False
        return d

    def consume(self, st, it, c, step, tag="it"):
        """synthetic loop; step(state, elem) -> [(state, 'cont'|'brk', value)]"""
        cc = self.subcall(c, tag)

        def bodyfn(s, L):
            outs = []
            done = T_("done", L.id)
            x = s.copy()
            x.conj[done] = True
            outs.append(("exit", x, ("done", None)))
            for s2, v in self.elems(s, it, L, cc):
                for s3, k, val in step(s2, v):
                    if k == "cont":
                        outs.append(("back", s3, None))
                    else:
                        outs.append(("exit", s3, ("brk", val)))
            return outs
        return [(s, p) for k, s, p in self.run_loop(st, cc.key, bodyfn)]

    def materialize(self, st, it, key, c=None):
        """closed sequence term of an iterator's elements"""
        if it.op == "iter":
            return st, it.a[0]
        c2 = Call()
        c2.E, c2.frame, c2.bb, c2.span, c2.key = self, key, 0, "", key
        o = (key + "%acc", 0)
        st = st.set(o, EMPTY)

        def step(s, v):
            p = T_("ptr", o, ())
            return [(self.store(s, p, mk_seq(self.load(s, p), mk_gen("push", TRUE, (), self.freeze(s, v)))), "cont", None)]
        rs = self.consume(st, it, c2, step)
        if len(rs) != 1:
            raise Inconclusive("materialize")
        s = rs[0][0]
        v = s.env[o]
        return self.drop_obj(s, o), v


def set_field(v, s, nv):
    """fields written one after the other, in one order"""
    ws = {}
    while v.op == "upd" and v.a[1][0] == "f":
        ws.setdefault(v.a[1], v.a[2])
        v = v.a[0]
    ws[s] = nv
    for k in sorted(ws):
        if ws[k] is not mk_field(v, k[1], k[2]):
            v = T_("upd", v, k, ws[k])
    return v


def unpost(v, phi):
    """state after a chain of opaque calls on the accumulator, as generators"""
    gs = []
    while v.op == "post":
        i, call = v.a
        gs.append(mk_gen("do", TRUE, (), tstr(call.a[0]), *[x for k, x in enumerate(call.a[1:]) if k != i]))
        v = call.a[1 + i]
    return mk_seq(v, *reversed(gs)) if v is phi else v


def occurs(x, t):
    return x in subterms(t)


def canon_gen(kind, guard, binds, payload):
    """alpha-canonical generator: outermost binder gets the highest index above everything bound inside"""
    if not binds:
        return mk_gen(kind, guard, binds, *payload)
    tmp = {b.a[0]: T_("bvtmp", i) for i, b in enumerate(binds)}
    memo = {}
    ts = [subst(x, tmp, memo) for x in (guard,) + tuple(payload)]
    doms = [subst(b.a[1], tmp, memo) for b in binds]
    d = max([0] + [t.bvd if t.bvd < 500 else 0 for t in ts + doms])
    n = len(binds)
    back = {T_("bvtmp", i): T_("bv", d + n - i) for i in range(n)}
    memo = {}
    ts = [subst(x, back, memo) for x in ts]
    bs = tuple(T_("bind", T_("bv", d + n - i), subst(dm, back, memo)) for i, dm in enumerate(doms))
    return mk_gen(kind, ts[0], bs, *ts[1:])


def cof(f, atom, val):
    if f.op != "ite":
        return f
    if f.a[0] is atom:
        return f.a[1] if val else f.a[2]
    return f_ite3(f_atom(f.a[0]), cof(f.a[1], atom, val), cof(f.a[2], atom, val))


def is_dense(it):
    """iterator whose n-th element belongs to index n of its source"""
    if it.op == "iter":
        return True
    if it.op in ("imap", "ienum", "itake"):
        return is_dense(it.a[0])
    if it.op == "izip":
        return is_dense(it.a[0]) and is_dense(it.a[1])
    return False


def fusable(coll):
    """collection built by a single comprehension over one source"""
    if coll.op == "seq" and coll.a[0].op == "empty" and len(coll.a) == 2:
        g = coll.a[1]
        if g.a[0] == "push" and len(g.a[2]) == 1 and g.a[2][0].a[1].op == "iter":
            return g
    return None


def canon_dom(it):
    """domain of an index: independent of which part of the elements is used"""
    c = it.a[0]
    while c.op in ("values", "keys"):
        c = T_("entries", c.a[0])
    if c.op == "range" and c.a[0].op == "int" and c.a[0].a[0] == 0 and c.a[1].op == "len":
        c = c.a[1].a[0]
        while c.op in ("values", "keys"):
            c = c.a[0]
    return T_("iter", c)


def zip_dom(a, b):
    if a is b:
        return a
    # an unbounded range adds no constraint
    for x, y in ((a, b), (b, a)):
        if x.op == "iter" and x.a[0].op == "rangefrom":
            return y
    if a.op == "iter" and b.op == "iter" and mk_len(a.a[0]) is mk_len(b.a[0]):
        return a
    return T_("izip", a, b)


def contains_atom(coll, x):
    if coll.op == "seq" and coll.a[0].op == "empty" and len(coll.a) == 1:
        return FALSE
    if coll.op == "agg" and coll.a[0] == "array":
        r = FALSE
        for y in coll.a[4:]:
            r = f_or(r, mk_eq(y, x))
        return unf(r)
    b = T_("bv", max(coll.bvd if coll.bvd < 500 else 0, x.bvd if x.bvd < 500 else 0) + 1)
    return TM.exists((T_("bind", b, canon_dom(T_("iter", coll))),), f_atom(mk_eq(mk_idx(coll, b), x)))


PURELANG = set()
NUMTY = re.compile(r"^[ui](?:8|16|32|64|128|size)::")
MODALIAS = {"config": "Config", "context": "Context", "solver": "Solver"}


def canon_name(nm):
    if nm in MODELS:
        return nm
    if NUMTY.match(nm):
        return "num::" + nm.split("::", 1)[1]
    h, _, t = nm.partition("::")
    if h in MODALIAS and t:
        return MODALIAS[h] + "::" + t
    return nm


OPT = ("None", "Some")
RES = ("Ok", "Err")
ITERS = ("iter", "imap", "ifilter", "ifmap", "ienum", "izip", "irev", "itake", "ichain", "iflatmap")
CTORS = {"Option::Some": ("Option", "Some"), "Result::Ok": ("Result", "Ok"), "Result::Err": ("Result", "Err")}
EFFECT = re.compile(r"^(?:std::)?(fs|File|OpenOptions|io|Write|BufWriter|BufReader|env|process|thread|net)::")
MODELS = {}
PUREOK = set()

import models  # noqa: E402,F401
