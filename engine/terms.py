"""Hash-consed terms and canonical boolean guards (reduced decision diagrams over atoms)."""
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "fv", "ptrs", "bvd", "size")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
E0 = frozenset()
LOOPY = ("iv", "phi")


def T_(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.id = op, a, len(_tab)
    fv, ptrs, bvd, size = E0, E0, 0, 1
    if op in LOOPY:
        fv = frozenset([a[0]])
    elif op == "ptr":
        ptrs = frozenset([a[0]])
    elif op == "bv":
        bvd = a[0]
    for x in a:
        if isinstance(x, T):
            size += x.size
            if x.fv:
                fv = fv | x.fv
            if x.ptrs:
                ptrs = ptrs | x.ptrs
            if x.bvd > bvd:
                bvd = x.bvd
    t.fv, t.ptrs, t.bvd, t.size = fv, ptrs, bvd, min(size, 10 ** 9)
    _tab[k] = t
    return t


TRUE = T_("bool", True)
FALSE = T_("bool", False)
UNIT = T_("agg", "tuple", "", "", ())
EMPTY = T_("seq", T_("empty"))


def tint(n):
    return T_("int", n)


def tstr(s):
    return T_("str", s)


def tbool(b):
    return TRUE if b else FALSE


def agg(kind, path, variant, names, vals):
    if variant and kind == "adt" and vals:
        # rebuilding a variant from its own fields
        v0 = vals[0]
        if v0.op == "field" and v0.a[2] == variant:
            x = v0.a[0]
            if all(v.op == "field" and v.a[0] is x and v.a[1] == n and v.a[2] == variant for v, n in zip(vals, names)):
                return x
    return T_("agg", kind, path, variant, tuple(names), *vals)


def tup(*v):
    return agg("tuple", "", "", (), v)


def some(x):
    return agg("adt", "Option", "Some", ("0",), (x,))


NONE = agg("adt", "Option", "None", (), ())


def ok(x):
    return agg("adt", "Result", "Ok", ("0",), (x,))


def err(x):
    return agg("adt", "Result", "Err", ("0",), (x,))


def show(t, d=12):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    if o in ("int", "bool", "str", "char"):
        return repr(a[0])
    if o == "param":
        return "$" + str(a[1])
    if o == "agg":
        vals = ", ".join(show(x, d - 1) for x in a[4:])
        if a[0] == "tuple":
            return "(" + vals + ")"
        if a[0] == "array":
            return "[" + vals + "]"
        if a[0] == "closure":
            return "{closure %s}" % a[1].split("::")[-1]
        return "%s%s{%s}" % (a[1].split("::")[-1], "::" + a[2] if a[2] else "",
                             ", ".join("%s:%s" % (n, show(x, d - 1)) for n, x in zip(a[3], a[4:])))
    if o == "field":
        return show(a[0], d - 1) + "." + (a[2] + "." if a[2] else "") + a[1]
    if o == "call":
        return a[0] + "(" + ", ".join(show(x, d - 1) for x in a[1:]) + ")"
    if o == "idx":
        return show(a[0], d - 1) + "[" + show(a[1], d - 1) + "]"
    if o == "is":
        return "(" + show(a[0], d - 1) + " is " + a[1] + ")"
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + show(a[0], d)
        if a[2] is FALSE:
            return show(a[0], d - 1) + " & " + show(a[1], d)
        if a[1] is FALSE:
            return "!" + show(a[0], d - 1) + " & " + show(a[2], d)
    if o == "bin":
        return "(" + show(a[1], d - 1) + " " + a[0] + " " + show(a[2], d - 1) + ")"
    if o == "iv":
        return "i#%s" % a[0]
    if o == "phi":
        return "phi#%s%s" % (a[0], "" if not a[1] else str(a[1][-1:]))
    if o == "bv":
        return "b%d" % a[0]
    if o == "fmt":
        return "f`" + "".join(x.a[0] if x.op == "str" else "{" + show(x.a[0], d - 1) + "}" for x in a) + "`"
    if o == "gen":
        return "⟨%s | %s ; %s⟩" % (a[0] + ":" + ",".join(show(x, d - 1) for x in a[2]), show(a[1], d - 1),
                                  ",".join(show(x, d - 1) for x in a[3:])) if isinstance(a[2], tuple) else str(a)
    return o + "(" + ", ".join(show(x, d - 1) for x in a) + ")"


def rebuild(t, f):
    """map f over children that are terms"""
    ch = False
    n = []
    for x in t.a:
        if isinstance(x, T):
            y = f(x)
            if y is not x:
                ch = True
            n.append(y)
        else:
            n.append(x)
    if not ch:
        return t
    return remk(t.op, n)


def remk(op, n):
    h = REMK.get(op)
    return h(*n) if h else T_(op, *n)


REMK = {}


def subst(t, m, memo=None):
    """m: dict term->term"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
    return seen


# ---- smart constructors -------------------------------------------------------------------
def mk_not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return T_("not", t)


CONSTS = ("int", "bool", "str", "char")


def known_variant(t):
    if t.op == "agg" and t.a[0] == "adt" and t.a[2]:
        return t.a[2]
    return None


def short_adt(p):
    return p.split("::")[-1]


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op in CONSTS and b.op in CONSTS and a.op == b.op:
        return tbool(a.a[0] == b.a[0])
    va, vb = known_variant(a), known_variant(b)
    if va and vb:
        if va != vb:
            return FALSE
        fs = [mk_eq(x, y) for x, y in zip(a.a[4:], b.a[4:])]
        r = TRUE
        for f in fs:
            r = f_and(r, f)
        return unf(r)
    if va == "None" or vb == "None":
        x = b if va == "None" else a
        return mk_not(mk_is(x, "Some", ("None", "Some")))
    if va == "Some" and not vb and len(a.a) == 5:
        return unf(f_and(f_atom(mk_is(b, "Some", ("None", "Some"))), f_atom(mk_eq(mk_field(b, "0", "Some"), a.a[4]))))
    if vb == "Some" and not va and len(b.a) == 5:
        return unf(f_and(f_atom(mk_is(a, "Some", ("None", "Some"))), f_atom(mk_eq(mk_field(a, "0", "Some"), b.a[4]))))
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return mk_not(b)
    if b is FALSE:
        return mk_not(a)
    if a.id > b.id:
        a, b = b, a
    return T_("eq", a, b)


def mk_lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return tbool(a.a[0] < b.a[0])
    if a.op == "int" and a.a[0] == 0 and b.op == "len":
        return mk_not(mk_eq(b, tint(0)))      # 0 < len  <=>  len != 0
    if b.op == "int" and b.a[0] == 1 and a.op == "len":
        return mk_eq(a, tint(0))
    return T_("lt", a, b)


def mk_is(x, v, variants):
    kv = known_variant(x)
    if kv is not None:
        return tbool(kv == v)
    if len(variants) == 2:
        if v == variants[0]:
            return mk_not(mk_is(x, variants[1], variants))
    if x.op == "cmp":
        a, b = x.a
        if v == "Less":
            return mk_lt(a, b)
        if v == "Equal":
            return mk_eq(a, b)
        if v == "Greater":
            return mk_lt(b, a)
    return T_("is", x, v, tuple(variants))


def mk_field(b, name, variant="", adt=""):
    if b.op == "agg":
        kind, path, var, names = b.a[:4]
        if kind == "adt":
            if (not variant or variant == var) and name in names:
                return b.a[4 + names.index(name)]
        elif name.isdigit() and int(name) < len(b.a) - 4:
            return b.a[4 + int(name)]
    if b.op == "upd":
        base, step, v = b.a
        if step == ("f", name, variant):
            return v
        if isinstance(step, tuple) and step[0] == "f":
            return mk_field(base, name, variant, adt)
    return T_("field", b, name, variant)


def lin(t):
    """(base, offset) for integer terms"""
    if t.op == "int":
        return (None, t.a[0])
    if t.op == "bin" and t.a[0] == "Add" and t.a[2].op == "int":
        return (t.a[1], t.a[2].a[0])
    return (t, 0)


def mk_bin(op, a, b):
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        if op == "Add":
            return tint(x + y)
        if op == "Sub" and x >= y:
            return tint(x - y)
        if op == "Mul":
            return tint(x * y)
    if op == "Add":
        if a.op == "int":
            a, b = b, a
        if b.op == "int":
            if b.a[0] == 0:
                return a
            if a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int":
                return mk_bin("Add", a.a[1], tint(a.a[2].a[0] + b.a[0]))
        elif a.id > b.id:
            a, b = b, a
    if op == "Sub":
        if b.op == "int" and b.a[0] == 0:
            return a
        if a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int" and b.op == "int" and a.a[2].a[0] >= b.a[0]:
            return mk_bin("Add", a.a[1], tint(a.a[2].a[0] - b.a[0]))
    if op == "Mul" and a.op != "int" and b.op != "int" and a.id > b.id:
        a, b = b, a
    if op in ("BitAnd", "BitOr", "BitXor") and a.id > b.id:
        a, b = b, a
    return T_("bin", op, a, b)


def mk_idx(v, i):
    if v.op == "agg" and v.a[0] == "array" and i.op == "int" and i.a[0] < len(v.a) - 4:
        return v.a[4 + i.a[0]]
    if v.op == "repeat":
        return v.a[0]
    if v.op == "values":
        return T_("mval", v.a[0], i)
    if v.op == "keys":
        return T_("mkey", v.a[0], i)
    if v.op == "entries":
        return tup(T_("mkey", v.a[0], i), T_("mval", v.a[0], i))
    if v.op == "upd":
        base, step, x = v.a
        if isinstance(step, tuple) and step[0] == "i":
            if step[1] is i:
                return x
            if step[1].op == "int" and i.op == "int":
                return mk_idx(base, i)
    if v.op == "slicefrom":
        return mk_idx(v.a[0], mk_bin("Add", v.a[1], i))
    # seq built by unconditional single pushes on empty: vec![a,b,..][k]
    if v.op == "seq" and v.a[0].op == "empty" and i.op == "int":
        gs = v.a[1:]
        if i.a[0] < len(gs) and all(g.a[0] == "push" and g.a[1] is TRUE and not g.a[2] for g in gs[: i.a[0] + 1]):
            return gs[i.a[0]].a[3]
    if v.op == "range":
        return mk_bin("Add", v.a[0], i)
    # comprehension indexing: seq(empty, <push v ; all of dom>)[i] = v[i/b]
    if v.op == "seq" and v.a[0].op == "empty" and len(v.a) == 2:
        g = v.a[1]
        if g.a[0] == "push" and g.a[1] is TRUE and len(g.a[2]) == 1:
            b, dom = g.a[2][0].a
            if dom.op == "iter":
                return subst(g.a[3], {b: i})
    return T_("idx", v, i)


def mk_len(v):
    if v.op == "agg" and v.a[0] == "array":
        return tint(len(v.a) - 4)
    if v.op == "str":
        return tint(len(v.a[0].encode()))
    if v.op == "seq" and v.a[0].op == "empty":
        if len(v.a) == 1:
            return tint(0)
        if all(g.a[0] == "push" and g.a[1] is TRUE and not g.a[2] for g in v.a[1:]):
            return tint(len(v.a) - 1)
        if len(v.a) == 2:
            g = v.a[1]
            if g.a[0] == "push" and g.a[1] is TRUE and len(g.a[2]) == 1:
                dom = g.a[2][0].a[1]
                if dom.op == "iter":
                    return dom_len(dom)
    if v.op in ("values", "keys", "entries"):
        return mk_len(v.a[0])
    if v.op in ("sorted", "rev"):
        return mk_len(v.a[0])
    if v.op == "repeat":
        return v.a[1]
    if v.op == "range":
        return v.a[1] if v.a[0].op == "int" and v.a[0].a[0] == 0 else T_("len", v)
    if v.op == "upd":
        if isinstance(v.a[1], tuple) and v.a[1][0] == "i":
            return mk_len(v.a[0])
    return T_("len", v)


def dom_len(d):
    return mk_len(d.a[0])


def mk_cast(ty, a):
    if a.op == "int":
        return a
    return T_("cast", ty, a)


def mk_seq(base, *gens):
    if not gens:
        return base if base.op in ("seq",) else T_("seq", base)
    if base.op == "seq":
        return mk_seq(base.a[0], *(base.a[1:] + tuple(gens)))
    if base.op == "empty" and len(gens) == 1:
        g = gens[0]
        # identity copy of a collection
        if g.a[0] in ("push",) and g.a[1] is TRUE and len(g.a[2]) == 1:
            b, dom = g.a[2][0].a
            if dom.op == "iter" and g.a[3] is mk_idx(dom.a[0], b):
                return dom.a[0]
            if dom.op == "iter" and dom.a[0].op == "entries":
                m = dom.a[0].a[0]
                if g.a[3] is T_("mkey", m, b):
                    return T_("keys", m)
                if g.a[3] is T_("mval", m, b):
                    return T_("values", m)
        if g.a[0] == "ins" and g.a[1] is TRUE and len(g.a[2]) == 1:
            b, dom = g.a[2][0].a
            if dom.op == "iter" and dom.a[0].op == "entries":
                m = dom.a[0].a[0]
                if g.a[3] is T_("mkey", m, b) and g.a[4] is T_("mval", m, b):
                    return m
    if base.op == "empty":
        base = T_("empty")
    return T_("seq", base, *gens)


def mk_gen(kind, guard, binds, *payload):
    return T_("gen", kind, guard, tuple(binds), *payload)


def rebuild_gen(t, f):
    kind, guard, binds = t.a[:3]
    return mk_gen(kind, f(guard), tuple(f(b) for b in binds), *[f(x) for x in t.a[3:]])


_old_rebuild = rebuild


def rebuild(t, f):  # noqa: F811
    if t.op == "gen":
        return rebuild_gen(t, f)
    if t.op == "upd" and isinstance(t.a[1], tuple):
        base, step, v = t.a
        step2 = tuple(f(x) if isinstance(x, T) else x for x in step)
        b2, v2 = f(base), f(v)
        if b2 is base and v2 is v and step2 == step:
            return t
        return T_("upd", b2, step2, v2)
    if t.op == "ite":
        return f_ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if t.op == "exists":
        return unf(exists(tuple(f(b) for b in t.a[0]), f(t.a[1])))
    return _old_rebuild(t, f)


# fv/ptrs/bvd inside tuples: patch T_ to look into tuples as well
_T_core = T_


def T_(op, *a):  # noqa: F811
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = _T_core(op, *a)
    for x in a:
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    if y.fv:
                        t.fv = t.fv | y.fv
                    if y.ptrs:
                        t.ptrs = t.ptrs | y.ptrs
                    if y.bvd > t.bvd:
                        t.bvd = y.bvd
    return t


REMK.update(
    agg=lambda k, p, v, n, *vals: agg(k, p, v, n, vals),
    field=lambda b, n, v: mk_field(b, n, v),
    idx=mk_idx,
    eq=mk_eq,
    lt=mk_lt,
    bin=mk_bin,
    len=mk_len,
    cast=mk_cast,
    seq=lambda b, *g: mk_seq(b, *g),
    **{"is": mk_is, "not": mk_not},
)

# ---- boolean guards: canonical decision diagrams ------------------------------------------
_memo_ite = {}


def f_atom(t):
    """boolean term -> formula"""
    if t is TRUE or t is FALSE:
        return t
    if t.op == "not":
        return f_not(f_atom(t.a[0]))
    if t.op == "ite":
        return t
    return T_("ite", t, TRUE, FALSE)


def f_top(f):
    return f.a[0] if f.op == "ite" else None


def f_cof(f, atom, val):
    if f.op == "ite" and f.a[0] is atom:
        return f.a[1] if val else f.a[2]
    return f


def f_ite3(c, a, b):
    """formula-level if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _memo_ite.get(k)
    if r is not None:
        return r
    atom = min(x for x in (f_top(c), f_top(a), f_top(b)) if x is not None)
    hi = f_ite3(f_cof(c, atom, True), f_cof(a, atom, True), f_cof(b, atom, True))
    lo = f_ite3(f_cof(c, atom, False), f_cof(a, atom, False), f_cof(b, atom, False))
    r = hi if hi is lo else T_("ite", atom, hi, lo)
    _memo_ite[k] = r
    return r


def f_and(a, b):
    return f_ite3(f_atom(a), f_atom(b), FALSE)


def f_or(a, b):
    return f_ite3(f_atom(a), TRUE, f_atom(b))


def f_not(a):
    return f_ite3(f_atom(a), FALSE, TRUE)


def f_ite(c, a, b):
    return f_ite3(f_atom(c), f_atom(a), f_atom(b))


def f_conj(items):
    r = TRUE
    for t, v in items:
        r = f_and(r, f_atom(t) if v else f_not(t))
    return r


def f_paths(f, pre=()):
    """all (atom,val) paths to TRUE"""
    if f is TRUE:
        return [pre]
    if f is FALSE:
        return []
    return f_paths(f.a[1], pre + ((f.a[0], True),)) + f_paths(f.a[2], pre + ((f.a[0], False),))


def f_atoms(f, acc=None):
    if acc is None:
        acc = set()
    if f.op == "ite":
        acc.add(f.a[0])
        f_atoms(f.a[1], acc)
        f_atoms(f.a[2], acc)
    return acc


def f_implies(a, b):
    return f_and(a, f_not(b)) is FALSE


def unf(f):
    """formula -> plain boolean term where possible"""
    if f.op == "ite":
        if f.a[1] is TRUE and f.a[2] is FALSE:
            return f.a[0]
        if f.a[1] is FALSE and f.a[2] is TRUE:
            return mk_not(f.a[0])
    return f


def exists(binds, f):
    if f is FALSE:
        return FALSE
    return T_("exists", tuple(binds), f)
