"""Equality of function summaries.

A summary is a list of outcomes (observable value, guard): the returned value, the final value of every
`&mut` argument and the ordered external effects.  Two summaries agree when every pair of outcomes whose
guards overlap has the same value, and the guards of both sides cover the same inputs.  Values are compared
as hash-consed normal forms; loops without a closed form are compared by partition refinement of their
loop-carried variables.
"""
from terms import *
import time
import terms as TM
import engine as EN
from cfg import short

T_ = TM.T_
BOOLOPS = ("eq", "lt", "is", "not", "ite", "exists")

_colours = {}


def colour(k):
    r = _colours.get(k)
    if r is None:
        r = _colours[k] = len(_colours)
    return r


# ---- guard normal form modulo exclusivity of atoms ---------------------------------------------
def groups_of(atoms):
    """sets of mutually exclusive atoms; (members, exhaustive)"""
    isg, eqg, ordg = {}, {}, {}
    for t in atoms:
        if t.op == "is" and len(t.a[2]) > 2:
            isg.setdefault((t.a[0], t.a[2]), set()).add(t)
        elif t.op == "eq":
            a, b = t.a
            if a.op in CONSTS:
                eqg.setdefault(b, set()).add(t)
            elif b.op in CONSTS:
                eqg.setdefault(a, set()).add(t)
            ordg.setdefault(frozenset((a, b)), set()).add(t)
        elif t.op == "lt":
            ordg.setdefault(frozenset(t.a), set()).add(t)
    out = []
    for (x, vs), ts in isg.items():
        out.append(([T_("is", x, v, vs) for v in vs], True))
    for x, ts in eqg.items():
        if len(ts) > 1:
            out.append((sorted(ts, key=lambda t: t.id), False))
    for ab, ts in ordg.items():
        if len(ab) == 2 and len(ts) > 1 or (len(ab) == 2 and any(t.op == "lt" for t in ts)):
            a, b = sorted(ab, key=lambda t: t.id)
            ls = [T_("lt", a, b), mk_eq(a, b), T_("lt", b, a)]
            if all(isinstance(x, T) and x.op in ("lt", "eq") for x in ls):
                out.append((ls, True))
    return out


_nf = {}


def norm_guard(f):
    if f.op != "ite":
        return f
    r = _nf.get(f)
    if r is not None:
        return r
    g = f
    for members, exhaustive in groups_of(f_atoms(f)):
        g = norm_group(g, members, exhaustive)
    _nf[f] = g
    _nf[g] = g
    return g


def cof_many(f, m):
    """simultaneous cofactor; m: atom -> bool"""
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        r = memo.get(x)
        if r is None:
            v = m.get(x.a[0])
            if v is None:
                r = f_ite3(T_("ite", x.a[0], TRUE, FALSE), go(x.a[1]), go(x.a[2]))
            else:
                r = go(x.a[1] if v else x.a[2])
            memo[x] = r
        return r
    return go(f)


_tick = 0


def tick():
    global _tick
    _tick += 1
    if not _tick & 63 and EN.DEADLINE is not None and time.time() > EN.DEADLINE:
        raise EN.Inconclusive("time")


def norm_group(f, members, exhaustive):
    tick()
    none = {t: False for t in members}
    cs = []
    for t in members:
        m = dict(none)
        m[t] = True
        cs.append(cof_many(f, m))
    if exhaustive:
        # the last member is implied by the failure of the others
        r = cs[-1]
        rest = list(zip(members, cs))[:-1]
    else:
        r = cof_many(f, none)
        rest = list(zip(members, cs))
    if all(c is r for _, c in rest):
        return r
    for t, c in reversed(rest):
        if c is not r or True:
            r = f_ite3(T_("ite", t, TRUE, FALSE), c, r)
    return r


# ---- canonical names for loop-carried values ----------------------------------------------------
def guard_of(loc):
    return f_conj([(t, v) for t, v in loc if t.op != "done"])


class Canon:
    ROUNDS = 6

    def __init__(self, E, roots):
        self.E = E
        self.loops = {}
        self.reach(roots)
        self.map = {}
        self.refine()

    def reach(self, roots):
        work = list(roots)
        seen = set()
        while work:
            t = work.pop()
            for i in t.fv:
                if i in self.loops or i not in self.E.loops:
                    continue
                L = self.E.loops[i]
                self.loops[i] = L
                info = self.info(L)
                for x in info["roots"]:
                    work.append(x)

    def info(self, L):
        inf = getattr(L, "_info", None)
        if inf is not None:
            return inf
        phis = {}
        for path, (phi, init) in L.phis.items():
            d = {}
            for loc, vals, ev in L.backs:
                g = guard_of(loc)
                v = vals[path]
                d[v] = f_or(d.get(v, FALSE), g)
            phis[phi] = (init, d)
        total = FALSE
        for loc, vals, ev in L.backs:
            total = f_or(total, guard_of(loc))
        evs = [(guard_of(loc), e) for loc, vals, ev in L.backs for e in ev]
        roots = [dom for _, dom in L.binds] + [total]
        for phi, (init, d) in phis.items():
            roots.append(init)
            for v, g in d.items():
                roots += [v, g]
        for g, e in evs:
            roots += [g, e]
        inf = L._info = dict(phis=phis, total=total, evs=evs, roots=roots)
        return inf

    def refine(self):
        m = {}
        for i, L in self.loops.items():
            for phi in self.info(L)["phis"]:
                m[phi] = T_("cphi", 0)
            for k, (iv, dom) in enumerate(L.binds):
                m[iv] = T_("civ", 0, k)
        self.map = m
        for rnd in range(self.ROUNDS if m else 0):
            n = {}
            self.memo = {}
            for i, L in self.loops.items():
                inf = self.info(L)
                lc = colour(("L", tuple(self.c(dom) for _, dom in L.binds), self.c(inf["total"]),
                             tuple((self.c(g), self.c(e)) for g, e in inf["evs"])))
                for k, (iv, dom) in enumerate(L.binds):
                    n[iv] = T_("civ", lc, k)
                for phi, (init, d) in inf["phis"].items():
                    dd = {}
                    for v, g in d.items():
                        cv = self.c(v)
                        dd[cv] = f_or(dd.get(cv, FALSE), self.c(g))
                    n[phi] = T_("cphi", colour(("P", lc, self.c(init), frozenset(dd.items()))))
            self.map = n
        self.memo = {}

    def c(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t in self.map:
            r = self.map[t]
        elif t.op in ("iv", "phi"):
            r = T_("c" + t.op, -1, str(t.a[1:]))
        else:
            r = TM.rebuild(t, self.c)
            if r.op == "ite":
                r = norm_guard(r)
        self.memo[t] = r
        return r


# ---- summaries ----------------------------------------------------------------------------------
class Summary:
    pass


def is_mut_ref(ty):
    return ty.startswith("&") and (ty.startswith("&mut") or " mut " in ty[:24])


DROP_EV = ("io::_print", "io::_eprint")


def summarize(facts, body, opaque=(), redirect=None, names=None, inline=(), canon=True):
    E = EN.Engine(facts, opaque, inline=inline)
    if redirect:
        E.redirect = redirect
    E.prints = short(body.path).endswith("pretty_print")
    st = EN.St({}, {}, (), ())
    args = []
    for i in range(body.argc):
        ty, nm = body.locals[i + 1]
        v = T_("param", i, (names or {}).get(i, "a%d" % i))
        if is_mut_ref(ty):
            o = ("arg", i)
            st = st.set(o, v)
            v = T_("ptr", o, ())
        args.append(v)
    rs = E.run_body(st, body, args, "f")
    S = Summary()
    S.E, S.body = E, body
    outs = {}
    for s, v in rs:
        val = E.freeze(s, v)
        muts = tuple((o[1], E.freeze(s, x)) for o, x in sorted(s.env.items(), key=lambda kv: str(kv[0])) if o[0] == "arg")
        evs = tuple(E.freeze(s, e) for e in s.ev if not (e.a[3].op == "call" and e.a[3].a[0] in DROP_EV))
        key = (val, muts, evs)
        outs[key] = f_or(outs.get(key, FALSE), f_conj([(t, x) for t, x in s.conj.items() if t.op != "done"]))
    roots = []
    for (val, muts, evs), g in outs.items():
        roots += [val, g] + [m for _, m in muts] + list(evs)
    S.raw = list(outs.items())
    if not canon:
        return S
    C = Canon(E, roots)
    C.memo = {}
    S.canon = C
    S.outs = []
    for (val, muts, evs), g in outs.items():
        S.outs.append(((C.c(val), tuple((i, C.c(m)) for i, m in muts), tuple(C.c(e) for e in evs)), C.c(g)))
    return S


def flatten_value(v):
    val, muts, evs = v
    return T_("out", val, tuple(m for _, m in muts), tuple(evs)) if False else agg(
        "tuple", "", "", (), (val, agg("tuple", "", "", (), [m for _, m in muts]), agg("tuple", "", "", (), evs)))


def bool_leaves(v, atoms, acc, depth=0):
    """boolean-valued components of an outcome value"""
    if v.op in BOOLOPS or v in atoms:
        acc.append(v)
    elif v.op == "agg" and v.a[0] != "array" and depth < 6:
        for x in v.a[4:]:
            bool_leaves(x, atoms, acc, depth + 1)
    return acc


def repl(v, old, new):
    if v is old:
        return new
    if v.op == "agg" and v.a[0] != "array":
        return agg(*v.a[:4], [repl(x, old, new) for x in v.a[4:]])
    return v


def split_bools(outs, atoms):
    res = {}
    work = [(v, g) for v, g in outs]
    while work:
        v, g = work.pop()
        if g is FALSE:
            continue
        ls = bool_leaves(v, atoms, [])
        if not ls:
            res[v] = f_or(res.get(v, FALSE), g)
            continue
        x = ls[0]
        work.append((repl(v, x, TRUE), norm_guard(f_and(g, f_atom(x)))))
        work.append((repl(v, x, FALSE), norm_guard(f_and(g, f_not(x)))))
    return [(v, norm_guard(g)) for v, g in res.items()]


def implied(path):
    """substitution implied by a conjunction of literals"""
    m = {}
    for t, val in path:
        m[t] = tbool(val)
        if val and t.op == "eq":
            a, b = t.a
            if a.op in CONSTS:
                a, b = b, a
            if b not in subterms(a):
                m.setdefault(a, b)
        if t.op == "is" and val is True and len(t.a[2]) > 2:
            for v in t.a[2]:
                if v != t.a[1]:
                    m[T_("is", t.a[0], v, t.a[2])] = FALSE
        if t.op == "is" and known_payloadless(t.a[0], t.a[1] if val else other(t)):
            m.setdefault(t.a[0], NONE)
    return m


def other(t):
    vs = t.a[2]
    if len(vs) == 2:
        return vs[0] if t.a[1] == vs[1] else vs[1]
    return None


def known_payloadless(x, v):
    return v == "None"


def consistent(path):
    pos = {}
    for t, val in path:
        if t.op == "is" and val:
            k = (t.a[0], t.a[2])
            if k in pos and pos[k] != t.a[1]:
                return False
            pos[k] = t.a[1]
        if t.op == "eq" and val:
            a, b = t.a
            if b.op in CONSTS:
                a, b = b, a
            if a.op in CONSTS:
                k = ("eq", b)
                if k in pos and pos[k] is not a:
                    return False
                pos[k] = a
    return True


class Diff:
    def __init__(self, kind, where, a=None, b=None):
        self.kind, self.where, self.a, self.b = kind, where, a, b


def quant_calls(f):
    """project away the success of calls: an unwrap is an assumption about the callee, not a decision"""
    for t in f_atoms(f):
        if t.op == "is" and t.a[1] in ("Some", "Ok") and t.a[0].op == "call":
            f = f_or(cof_many(f, {t: True}), cof_many(f, {t: False}))
    return f


def compare(A, B, limit=4):
    """A: summary of the code, B: reference; list of differences"""
    atoms = set()
    for S in (A, B):
        for v, g in S.outs:
            atoms |= f_atoms(g)
    a = split_bools([(flatten_value(v), g) for v, g in A.outs], atoms)
    b = split_bools([(flatten_value(v), g) for v, g in B.outs], atoms)
    diffs = []
    ta = tb = FALSE
    for _, g in a:
        ta = f_or(ta, g)
    for _, g in b:
        tb = f_or(tb, g)
    ta, tb = norm_guard(quant_calls(ta)), norm_guard(quant_calls(tb))
    for v, g in a:
        for w, h in b:
            if v is w:
                continue
            x = norm_guard(f_and(g, h))
            if x is FALSE:
                continue
            for p in f_paths(x):
                if not consistent(p):
                    continue
                m = implied(p)
                memo = {}
                v2, w2 = subst(v, m, memo), subst(w, m, memo)
                if v2 is w2:
                    continue
                diffs.append(Diff("value", p, v2, w2))
                break
            if len(diffs) >= limit:
                return diffs
    if ta is not tb:
        for lab, x in (("code stops where the reference continues", f_and(tb, f_not(ta))),
                       ("code continues where the reference stops", f_and(ta, f_not(tb)))):
            x = norm_guard(x)
            if x is FALSE:
                continue
            for p in f_paths(x):
                if consistent(p):
                    diffs.append(Diff("domain", p, tstr(lab), None))
                    break
    return diffs


def first_diff(a, b, d=0):
    """smallest differing subterms"""
    if a.op == b.op and len(a.a) == len(b.a):
        ds = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y:
                    ds.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for p, q in zip(x, y):
                    if isinstance(p, T) and isinstance(q, T):
                        if p is not q:
                            ds.append((p, q))
                    elif p != q:
                        return a, b
            elif x != y:
                return a, b
        if len(ds) == 1 and d < 60:
            return first_diff(ds[0][0], ds[0][1], d + 1)
    return a, b
