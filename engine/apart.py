"""Telling two summaries apart.

Two different normal forms may still denote the same function (the normaliser is incomplete).  Before a
difference is reported it has to be confirmed: the two *terms* are read under interpretations of their
uninterpreted vocabulary (a term algebra with small sorts, in the manner of random interpretation, Gulwani and
Necula, POPL 2004).  An interpretation under which the terms denote different values separates them; if none of
the interpretations tried separates them, nothing is reported and the obligation counts as undecided.

Nothing of the analysed program is executed: only the abstract summaries are read.  The interpretation can only
withhold a report, it never establishes that a property holds.
"""
import os
import pickle
import random
import re
import time
from functools import cmp_to_key
from terms import *
import terms as TM
import engine as EN
from cfg import short, strip_generics

T_ = TM.T_
BT, BF = ("b", True), ("b", False)
UNITV = ("t",)
NIL = ("l",)
NONEV = ("s", "None", ())
M128 = (1 << 128) - 1


class Unknown(Exception):
    """the interpretation does not settle the value"""


class Stop(Exception):
    """the summary has no outcome here (the code would stop)"""


def bval(x):
    return BT if x else BF


# ---- the interpretation -------------------------------------------------------------------------
class Interp:
    def __init__(self, seed, ints, strs, ptys, parent=None, long=False):
        """parent: (table, keys, pool, width, share dropped) of an interpretation to vary"""
        self.rng = random.Random(seed)
        self.seed = seed
        self.preset, self.prekeys = {}, {}
        self.tab = {}
        self.pool = {}          # map atom -> keys asked for in the previous pass
        self.asked = {}
        self.names = {}
        self.ints = sorted(set(x for x in ints if 0 <= x < 500) | {0, 1, 2, 3})
        self.bigs = sorted(x for x in ints if x >= 500)
        # lengths on both sides of the larger numbers the code compares with; most interpretations stay small
        self.lens = sorted(x for x in ints if 60 <= x <= LONG)
        self.long = bool(self.lens) and long
        self.strs = self.mkstrs(strs)
        self.W = self.rng.choice([1, 2, 4, 4, 7, 32, 127, 128])
        self.fresh = 11
        self.keys = {}
        self.good = self.rng.choice([0.05, 0.5, 0.95] if self.long else [0.5, 0.8, 0.95])
        self.hints = {}
        self.known = {}
        self.shapes = {}
        self.ents, self.index = {}, {}
        self.longest = LONG if long else 30
        self.slow = self.busy = False
        self.heads = {}
        if parent is not None:
            self.vary(parent)

    def vary(self, parent):
        tab, keys, pool, w, good, strs, names, hints = parent
        r = self.rng
        self.strs, self.names = strs, dict(names)
        if r.random() < .9:
            self.W = w
        if not self.long:
            self.good = good
        n = len(tab)
        if n and r.random() < .7:
            drop = set(r.sample(range(n), min(n, r.choice([1, 1, 2, 3, 5, 8]))))
        else:
            p = r.choice([.05, .15, .4])
            drop = {i for i in range(n) if r.random() < p}
        if self.long:
            drop |= {i for i, k in enumerate(tab) if k[0] == "len" and r.random() < .5}
        self.preset = {k: v for i, (k, v) in enumerate(tab.items()) if i not in drop}
        self.prekeys = {k: v for k, v in keys.items() if r.random() < .9}
        self.pool = pool
        self.fresh = 11 + r.randrange(1, 40)
        if hints and r.random() < .6:
            # values that were compared and differed are made equal, or ordered the other way
            for _ in range(r.choice([1, 1, 2])):
                h = r.choice(hints)
                if h[0] == "key":
                    self.preset[h[1]] = h[2]
                    continue
                x, y = h if r.random() < .5 else h[::-1]
                if not isinstance(x, int):
                    x, y = y, x
                if isinstance(y, int) and r.random() < .2:
                    y += 1
                ks = [k for k, v in tab.items() if v == x and k[0] not in ("bool", "variant", "text")
                      and (k[0] != "len" or isinstance(y, int) and y <= self.longest)]
                if not ks:
                    continue
                for k in ks if r.random() < .4 else [r.choice(ks)]:
                    self.preset[k] = y

    def mkstrs(self, strs):
        r = self.rng
        base = sorted(set(s for s in strs if len(s) < 40))
        out = ["", "x", " y ", "a b", "Xy", "7", "#b101", "12", "-3", "+5", "007", "#b2", "#b", "255", "256",
               "4294967296", "18446744073709551615", "18446744073709551616", str(M128), str(M128 + 1)]
        for s in base[:40]:
            out += [s, s + "x", s + s + "z", s + "Ab", "p" + s + "q", "p " + s + " q"]
            if r.random() < .5:
                t = r.choice(base)
                out += [s + t, "u" + t + "v" + s + "w"]
        return out

    def restart(self):
        """next pass over the same interpretation, with the keys asked for in this one"""
        self.pool = {m: sorted(ks, key=repr) for m, ks in self.asked.items()}
        self.asked = {}
        self.tab = {}
        self.names = {} if not self.preset else self.names
        self.keys = {}
        self.ents, self.index = {}, {}
        self.hints = {}
        self.known = {}
        self.fresh = 11
        self.rng = random.Random(self.seed * 7919 + 13)

    def atom(self):
        x = self.rng.random()
        if x < .05 and self.bigs:
            return self.rng.choice(self.bigs)
        if x < .55:
            return self.rng.choice(self.ints) if self.rng.random() < .7 else self.rng.randrange(0, 4)
        if x < .7:
            return 1000 + self.rng.randrange(len(self.strs))
        self.fresh += 1
        return self.fresh

    def fn(self, *key, gen=None):
        r = self.tab.get(key)
        if r is None:
            r = self.congruent(key) if self.slow else None
            if r is None:
                r = self.preset.get(key)
            if r is None:
                r = (gen or self.atom)()
            self.tab[key] = r
        return r

    def congruent(self, key):
        """what the operation gave for arguments that are the same values, represented differently"""
        ks = self.heads.setdefault((key[0], len(key)), [])
        r = None
        if not self.busy and any(isinstance(x, tuple) for x in key[1:]):
            self.busy = True
            try:
                for k in ks:
                    if all(self.eqx(x, y) for x, y in zip(key[1:], k[1:])):
                        r = self.tab[k]
                        break
            finally:
                self.busy = False
        ks.append(key)
        return r

    def settle(self):
        """the same interpretation once more, with everything that was read of it kept; equal arguments, equal results"""
        self.preset.update(self.tab)
        self.prekeys.update(self.keys)
        self.names, names = dict(self.names), self.names
        self.restart()
        self.names = names
        self.slow, self.heads = True, {}

    def truth(self, v):
        if isinstance(v, tuple) and v and v[0] == "b":
            return v[1]
        if isinstance(v, int):
            return self.fn("bool", v, gen=lambda: self.rng.random() < .5)
        raise Unknown("truth of %r" % (v[:1],))

    def num(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v[0] == "b":
            return int(v[1])
        if isinstance(v, tuple) and v[0] == "str":
            raise Unknown("number of a string")
        raise Unknown("number")

    def text(self, v):
        if isinstance(v, int):
            if 1000 <= v < 1000 + len(self.strs):
                return self.strs[v - 1000]
            return str(v)
        if isinstance(v, tuple) and v[0] == "str":
            return v[1]
        return "<%s>" % self.fn("text", v, gen=lambda: self.rng.randrange(10 ** 6))

    def variant(self, v, vs):
        if isinstance(v, int):
            def g():
                if vs in (("None", "Some"), ("Ok", "Err")):
                    good = "Some" if "Some" in vs else "Ok"
                    bad = [x for x in vs if x != good][0]
                    return good if self.rng.random() < self.good else bad
                return self.rng.choice(vs)
            self.known.setdefault(v, {})[tuple(vs)] = 1
            return self.fn("variant", v, tuple(vs), gen=g)
        if isinstance(v, tuple) and v[0] == "s":
            return v[1]
        if isinstance(v, tuple) and v[0] == "o":
            return self.variant(v[1], vs)
        raise Unknown("variant")

    def field(self, v, name, variant=""):
        if isinstance(v, int):
            if name == "name" and v in self.names:
                return self.names[v]
            return self.fn("field", v, name, variant)
        k = v[0]
        if k == "s":
            for n, x in v[2]:
                if n == name:
                    return x
            raise Unknown("field %s" % name)
        if k == "o":
            for n, x in v[2]:
                if n == (name, variant):
                    return x
            return self.field(v[1], name, variant)
        if k == "t" and name.isdigit():
            return v[1 + int(name)]
        if k in ("g", "fmt"):
            return self.fn("field", v, name, variant)
        raise Unknown("field %s of %s" % (name, k))

    # collections
    def genlen(self):
        if self.long and self.rng.random() < .25:
            return self.rng.choice(self.lens)
        if self.rng.random() < .04:
            return min(60, self.rng.choice(self.ints))
        return self.rng.choice([0, 1, 1, 2, 2, 3, 3])

    def length(self, v):
        if isinstance(v, int):
            return self.fn("len", v, gen=self.genlen)
        if v[0] == "l":
            return len(v) - 1
        if v[0] == "m":
            return len(v) - 1
        if v[0] == "str":
            return len(v[1].encode())
        if v[0] in ("g", "o"):
            return self.fn("len", v, gen=self.genlen)
        raise Unknown("length")

    def mapkeys(self, m):
        ks = self.keys.get(m)
        if ks is None and m in self.prekeys and len(self.prekeys[m]) == self.length(m):
            ks = self.keys[m] = self.prekeys[m]
        if ks is None:
            n = self.length(m)
            pool = list(self.pool.get(m, ()))
            ks = []
            for i in range(n):
                c = [k for k in pool if k not in ks]
                if c and self.rng.random() < .6:
                    ks.append(self.rng.choice(c))
                else:
                    while True:
                        k = self.rng.randrange(0, 8) if self.rng.random() < .6 else self.rng.randrange(100, 400 + 4 * n)
                        if k not in ks:
                            break
                    ks.append(k)
            self.keys[m] = ks = tuple(ks)
        return ks

    def mapval(self, m, k):
        def g():
            self.fresh += 1
            v = 200000 + self.fresh
            while v in self.names:
                self.fresh += 1
                v += 1
            return v
        v = self.fn("mval", m, k, gen=g)
        n = self.names.setdefault(v, k)
        if n != k and not self.eqx(n, k):
            # a value is stored under one name
            v = self.tab["mval", m, k] = g()
            self.names[v] = k
        return v

    def entries(self, m):
        """[(key, value)]"""
        if isinstance(m, int) or m[0] in ("g", "o"):
            r = self.ents.get(m)
            if r is None:
                r = [(k, self.mapval(m, k)) for k in self.mapkeys(m)]
                if len(r) > 60:
                    self.ents[m] = r
            return r
        if m[0] == "m":
            return list(m[1:])
        if m[0] == "l":
            return [(x[1], x[2]) if isinstance(x, tuple) and x[0] == "t" and len(x) == 3 else (x, UNITV) for x in m[1:]]
        raise Unknown("entries")

    def find(self, m, k):
        if isinstance(m, int) or m[0] == "g":
            self.asked.setdefault(m, set()).add(k)
            es = self.entries(m)
            if len(es) > 60:
                d = self.index.get(m)
                if d is None:
                    d = self.index[m] = dict(es)
                if k in d:
                    return (d[k],)
                if isinstance(k, int):
                    self.hint(k, es[-1][0])
                    return None
        es = self.entries(m)
        for a, b in es:
            if self.eq(a, k):
                return (b,)
        if not isinstance(m, int) and m[0] != "g" and 0 < len(es) <= 12:
            # what is missing from a table made from another one might have been in that one
            own = {a for a, _ in es}
            for base, ks in self.keys.items():
                if not own.isdisjoint(ks):
                    self.asked.setdefault(base, set()).add(k)
        return None

    def items(self, v):
        """elements of a sequence"""
        if isinstance(v, int) or v[0] in ("g", "o"):
            return [self.at(v, i) for i in range(self.length(v))]
        if v[0] == "l":
            return list(v[1:])
        if v[0] == "m":
            return [("t", k, x) for k, x in v[1:]]
        if v[0] == "str":
            return [("str", x) for x in v[1]]
        raise Unknown("items of %s" % v[0])

    def at(self, v, i):
        if isinstance(i, tuple):
            if i[0] == "ci":
                i = i[2]
            elif i[0] == "str" and (isinstance(v, int) or v[0] == "g"):
                return self.fn("idx", v, i)
            else:
                raise Unknown("index")
        if isinstance(v, int) or v[0] in ("g", "o"):
            if isinstance(i, int) and ("len", v) in self.tab and self.tab["len", v] <= i < 12:
                self.hints["key", ("len", v), i + 1] = 1
            n = self.tab.get(("len", v), 0)
            if n > 60:
                # long sequences repeat one element, but for their ends and places the code mentions
                f = self.fn("fill", v)
                odd = i in (0, n - 1) or i in self.lens or self.rng.random() < .5 / n
                return self.fn("idx", v, i, gen=lambda: self.atom() if odd and self.rng.random() < .5 else f)
            return self.fn("idx", v, i)
        if v[0] == "l":
            if i >= len(v) - 1:
                raise Stop("index")
            return v[1 + i]
        if v[0] == "m":
            if i >= len(v) - 1:
                raise Stop("index")
            return ("t",) + v[1 + i]
        if v[0] == "str":
            if i >= len(v[1]):
                raise Stop("index")
            return ("str", v[1][i])
        raise Unknown("index of %s" % v[0])

    def hint(self, a, b):
        if len(self.hints) < 300:
            self.hints[a, b] = 1

    # equality modulo representation
    def eq(self, a, b):
        if a == b:
            return True
        if isinstance(b, int):
            a, b = b, a
        if isinstance(a, int):
            if isinstance(b, int):
                self.hint(a, b)
                return False
            k = b[0]
            if k == "str":
                if self.text(a) == b[1]:
                    return True
                if b[1] in self.strs:
                    self.hint(a, 1000 + self.strs.index(b[1]))
                return False
            if k == "b":
                return self.truth(a) == b[1]
            if k == "s":
                if b[1]:
                    if self.variant(a, self.shape(b[1], a)) != b[1]:
                        return False
                return all(self.eq(self.field(a, n, b[1]), x) for n, x in b[2])
            if k == "t":
                return all(self.eq(self.field(a, str(i)), x) for i, x in enumerate(b[1:]))
            if k == "l":
                return self.length(a) == len(b) - 1 and all(self.eq(x, y) for x, y in zip(self.items(a), b[1:]))
            if k == "m":
                es = self.entries(a)
                return len(es) == len(b) - 1 and all(
                    self.eq(x, p) and self.eq(y, q) for (x, y), (p, q) in zip(es, b[1:]))
            if k == "o":
                return all(self.eq(self.field(a, n[0], n[1]), x) for n, x in b[2]) and a == b[1]
            return False
        if a[0] == "o" or b[0] == "o":
            if a[0] != "o":
                a, b = b, a
            if b[0] == "o":
                ns = {n for n, _ in a[2]} | {n for n, _ in b[2]}
                return a[1] == b[1] and all(self.eq(self.field(a, *n), self.field(b, *n)) for n in ns)
            if b[0] == "s":
                return all(self.eq(self.field(a, n, b[1]), x) for n, x in b[2])
            return False
        if a[0] != b[0]:
            if {a[0], b[0]} == {"l", "m"} and len(a) == len(b) == 1:
                return True
            if {a[0], b[0]} <= {"t", "s", "l"}:
                xs, ys = self.parts(a), self.parts(b)
                return len(xs) == len(ys) and all(self.eq(x, y) for x, y in zip(xs, ys))
            return False
        if a[0] == "s":
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return False
            return all(self.eq(x, y) for (_, x), (_, y) in zip(a[2], b[2]))
        if a[0] == "t" or a[0] == "l":
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == "m":
            return len(a) == len(b) and all(self.eq(p, r) and self.eq(q, s) for (p, q), (r, s) in zip(a[1:], b[1:]))
        if a[0] in ("str", "b"):
            return False
        if a[0] in ("g", "lam", "ev", "fmt"):
            return len(a) == len(b) and all(
                (self.eq(x, y) if isinstance(x, (int, tuple)) and isinstance(y, (int, tuple)) and x != () and y != () else x == y)
                for x, y in zip(a[1:], b[1:]))
        if isinstance(a[0], str) and len(a) == len(b):
            return all(self.eqx(x, y) for x, y in zip(a[1:], b[1:]))
        return False

    def eqx(self, x, y):
        if x == y:
            return True
        if isinstance(x, (int, tuple)) and isinstance(y, (int, tuple)) and x != () and y != ():
            return self.eq(x, y)
        return False

    def parts(self, v):
        return [x for _, x in v[2]] if v[0] == "s" else list(v[1:])

    def shape(self, variant, v=None):
        for vs in self.known.get(v, ()):
            if variant in vs:
                return vs
        if variant in ("Some", "None"):
            return ("None", "Some")
        if variant in ("Ok", "Err"):
            return ("Ok", "Err")
        if variant in ("Less", "Equal", "Greater"):
            return ("Less", "Equal", "Greater")
        return self.shapes.get(variant) or (variant, "?other")

    def cmp(self, a, b):
        if self.eq(a, b):
            return 0
        if isinstance(a, int) and isinstance(b, int):
            self.hint(a, b)
            return -1 if a < b else 1
        ka, kb = self.rank(a), self.rank(b)
        if ka != kb:
            return -1 if ka < kb else 1
        return 0

    def rank(self, v):
        if isinstance(v, int):
            return (0, v) if not (1000 <= v < 1000 + len(self.strs)) else (1, self.text(v))
        if v[0] == "str":
            return (1, v[1])
        if v[0] == "b":
            return (0, int(v[1]))
        return (2, repr(v))


# arguments a library operation hands to a callback: the same ones whichever callback it is
CB = 400000


# ---- reading terms -------------------------------------------------------------------------------
VOCAB = set()
FREE = {}
LONG = 2100


class Env:
    __slots__ = ("v", "memo", "up")

    def __init__(self, v, up=None):
        self.v, self.memo, self.up = v, {}, up

    def with_(self, d):
        n = dict(self.v)
        n.update(d)
        return Env(n, self)


class Reader:
    """values of the terms of one summary under an interpretation"""
    STEPS = 60000

    DEPTH = 12

    def __init__(self, S, I, vocab, ptys, stop_at=None, opts=None, odd=(), cov=None, unfold=None, args=None, depth=0):
        self.odd, self.cov = odd, cov
        self.unfold, self.args, self.depth = unfold, args, depth
        self.recmemo = {}
        self.S, self.I, self.E, self.vocab, self.ptys = S, I, S.E, vocab, ptys
        self.root = Env({})
        self.steps = 0
        self.limit = self.STEPS
        self.stop_at = stop_at
        self.opts = opts or {}

    def outcome(self):
        """value of the summary, or None where it has none"""
        res = []
        for (val, muts, evs), g in self.S.raw:
            try:
                if not self.truth(g, self.root):
                    continue
            except Stop:
                continue
            try:
                v = self.ev(val, self.root)
                ms = tuple(self.ev(m, self.root) for _, m in muts)
                mk = tuple(k for k, _ in muts)
                es = []
                for e in evs:
                    es += self.events(e)
            except Stop:
                continue
            o = ("t", v, ("t",) + ms, ("l",) + tuple(es))
            if not any(self.I.eq(o, x) for x in res):
                res.append(o)
                self.mutkeys = mk
        if len(res) > 1:
            raise Unknown("ambiguous")
        return res[0] if res else None

    def events(self, gen):
        out = []
        for env in self.binds(gen.a[2], gen.a[1], self.root):
            out.append(self.ev(gen.a[3], env))
        return out

    def truth(self, f, env):
        r = self.I.truth(self.ev(f, env))
        if self.cov is not None:
            self.cov[f, r] = 1
        return r

    def binds(self, bs, guard, env):
        """environments of a generator"""
        self.tick()
        if not bs:
            if guard is TRUE or self.truth(guard, env):
                yield env
            return
        bv, dom = bs[0].a
        for i in self.dom(dom, env):
            yield from self.binds(bs[1:], guard, env.with_({bv: i}))

    def tick(self):
        self.steps += 1
        if self.steps > self.limit or self.stop_at and not self.steps & 255 and time.time() > self.stop_at:
            raise Unknown("budget")

    def dom(self, d, env):
        o = d.op
        if o == "iter":
            c = d.a[0]
            if c.op == "rangefrom":
                raise Unknown("unbounded")
            if c.op == "mutdom":
                c = c.a[0]
            n = self.length(c, env)
            if n > LONG + 1:
                raise Unknown("long")
            if n > 60:
                self.limit = max(self.limit, self.STEPS * 20)
            return range(n)
        if o == "irev":
            return list(reversed(self.dom(d.a[0], env)))
        if o == "itake":
            return list(self.dom(d.a[0], env))[: self.I.num(self.ev(d.a[1], env))]
        if o == "izip":
            a, b = list(self.dom(d.a[0], env)), list(self.dom(d.a[1], env))
            return a if len(a) <= len(b) else b
        if o == "ichain":
            return [("ci", 0, i) for i in self.dom(d.a[0], env)] + [("ci", 1, i) for i in self.dom(d.a[1], env)]
        raise Unknown("domain " + o)

    def length(self, c, env):
        if c.op in ("values", "keys", "entries"):
            return len(self.I.entries(self.ev(c.a[0], env)))
        if c.op == "range":
            a, b = self.num(c.a[0], env), self.num(c.a[1], env)
            return max(0, b - a)
        return self.I.length(self.ev(c, env))

    def num(self, t, env):
        return self.I.num(self.ev(t, env))

    def free(self, t):
        """bound variables a term's value depends on; None if it depends on a loop or a callback's argument"""
        r = FREE.get(t, 0)
        if r != 0:
            return r
        if t.fv or t.op in ("lamtmp", "sortarg", "iv", "phi", "at"):
            r = None
        elif t.op == "bv":
            r = frozenset([t])
        elif not t.bvd:
            r = None if self.lamish(t) else frozenset()
        else:
            s, own = set(), set()
            for y in t.a:
                if isinstance(y, tuple):
                    own.update(z.a[0] for z in y if isinstance(z, T) and z.op == "bind")
            r = None
            for y in self.kids(t):
                f = self.free(y)
                if f is None:
                    break
                s |= f
            else:
                r = frozenset(s - own) if t.op != "bind" else frozenset(s)
        FREE[t] = r
        return r

    def ev(self, t, env):
        if env is not self.root and t.size > 2:
            f = self.free(t)
            if f is not None:
                if not f:
                    env = self.root
                else:
                    up = env.up
                    while up is not None and all(up.v.get(x, self) is env.v.get(x, up) for x in f):
                        env, up = up, up.up
        r = env.memo.get(t)
        if r is not None:
            if isinstance(r, Exception):
                raise r
            return r
        self.tick()
        try:
            r = self.ev_(t, env)
            if isinstance(r, int) and self.opts and t.op in ("call", "field", "idx", "mget", "mval", "mkey", "last"):
                vs = self.opts.get(shape(t))
                if vs:
                    n = self.I.variant(r, vs)
                    r = NONEV if n == "None" else ("s", n, (("0", self.I.field(r, "0", n)),))
        except (Stop, Unknown) as x:
            env.memo[t] = x
            raise
        env.memo[t] = r
        if t in self.odd:
            self.cov[t, None] = 1
            if isinstance(r, tuple) and r:
                self.cov[t, r[0] if r[0] not in ("s", "b") else r[:2]] = 1
        return r

    def lamish(self, t):
        r = getattr(self, "_lamish", None)
        if r is None:
            r = self._lamish = {}
        x = r.get(t)
        if x is None:
            x = t.op in ("lamtmp", "sortarg") or any(self.lamish(y) for y in self.kids(t))
            r[t] = x
        return x

    def kids(self, t):
        for y in t.a:
            if isinstance(y, T):
                yield y
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        yield z

    def ev_(self, t, env):
        I, o, a = self.I, t.op, t.a
        if t in env.v:
            return env.v[t]
        if o == "int":
            return a[0] & M128
        if o == "bool":
            return bval(a[0])
        if o == "str":
            return ("str", a[0])
        if o == "char":
            return ("str", a[0])
        if o == "param":
            return self.param(a[0])
        if o == "empty":
            return NIL
        if o == "agg":
            return self.agg(t, env)
        if o == "field":
            return I.field(self.ev(a[0], env), a[1], a[2])
        if o == "upd":
            return self.upd(t, env)
        if o == "idx":
            return I.at(self.ev(a[0], env), self.ev(a[1], env))
        if o in ("mkey", "mval"):
            es = I.entries(self.ev(a[0], env))
            i = self.ev(a[1], env)
            i = i[2] if isinstance(i, tuple) and i[0] == "ci" else i
            if not isinstance(i, int) or i >= len(es):
                raise Stop("entry")
            return es[i][0 if o == "mkey" else 1]
        if o in ("keys", "values", "entries"):
            es = I.entries(self.ev(a[0], env))
            if o == "entries":
                return ("l",) + tuple(("t", k, v) for k, v in es)
            return ("l",) + tuple(e[0 if o == "keys" else 1] for e in es)
        if o == "haskey":
            m, k = self.ev(a[0], env), self.ev(a[1], env)
            return bval(I.find(m, k) is not None)
        if o == "mget":
            r = I.find(self.ev(a[0], env), self.ev(a[1], env))
            if r is None:
                raise Stop("key")
            return r[0]
        if o == "slotor":
            r = I.find(self.ev(a[0], env), self.ev(a[1], env))
            return r[0] if r else self.ev(a[2], env)
        if o == "len":
            return self.length(a[0], env)
        if o == "eq":
            return bval(I.eq(self.ev(a[0], env), self.ev(a[1], env)))
        if o == "lt":
            return bval(self.lt(self.ev(a[0], env), self.ev(a[1], env)))
        if o == "cmp":
            c = I.cmp(self.ev(a[0], env), self.ev(a[1], env))
            return ("s", {-1: "Less", 0: "Equal", 1: "Greater"}[c], ())
        if o == "thencmp":
            x = self.ev(a[0], env)
            return self.ev(a[1], env) if I.variant(x, ("Less", "Equal", "Greater")) == "Equal" else x
        if o in ("max", "min"):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            lo, hi = (x, y) if self.lt(x, y) else (y, x)
            return hi if o == "max" else lo
        if o == "not":
            return bval(not self.truth(a[0], env))
        if o == "ite":
            try:
                c = self.truth(a[0], env)
            except Stop:
                # an atom without value (the index at which a loop that was not left stopped): it must not matter
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if I.eq(x, y):
                    return x
                raise
            return self.ev(a[1] if c else a[2], env)
        if o == "is":
            x = self.ev(a[0], env)
            return bval(I.variant(x, a[2]) == a[1])
        if o == "discr":
            x = self.ev(a[0], env)
            n = I.variant(x, tuple(n for _, n in a[1]))
            for v, m in a[1]:
                if m == n:
                    return v
            raise Unknown("discriminant")
        if o == "exists":
            for e in self.binds(a[0], a[1], env):
                return BT
            return BF
        if o == "bin":
            return self.bin(a[0], self.ev(a[1], env), self.ev(a[2], env))
        if o == "un":
            x = self.ev(a[1], env)
            if a[0] == "Not" and isinstance(x, int):
                return x ^ M128
            if a[0] == "Neg" and isinstance(x, int):
                return -x & M128
            return I.fn("un", a[0], x)
        if o == "cast":
            return self.cast(a[0], self.ev(a[1], env))
        if o == "seq":
            return self.seq(t, env)
        if o == "repeat":
            n = self.num(a[1], env)
            if n > LONG + 1:
                raise Unknown("long")
            if n > 60:
                self.limit = max(self.limit, self.STEPS * 20)
            return ("l",) + (self.ev(a[0], env),) * n
        if o == "range":
            x, y = self.num(a[0], env), self.num(a[1], env)
            if y - x > LONG + 1:
                raise Unknown("long")
            if y - x > 60:
                self.limit = max(self.limit, self.STEPS * 20)
            return ("l",) + tuple(range(x, y))
        if o in ("iv", "phi"):
            return self.loopvar(t, env)
        if o == "at":
            L = self.E.loops[a[0].a[0]]
            ivs = tuple(iv for iv, _ in L.binds)
            d = self.E.deps(L)
            ov = tuple(iv for N in L.enclosing if N.id in d for iv, _ in N.binds)
            if len(a) - 1 == len(ivs) + len(ov) and (ivs or not ov):
                if not ivs:
                    raise Unknown("iteration of an unbounded loop")
                ivs += ov
            elif len(a) - 1 == len(ov):
                ivs = ov
            else:
                raise Unknown("iteration of an unbounded loop")
            return self.loopvar(a[0], env.with_({iv: self.ev(x, env) for iv, x in zip(ivs, a[1:])}))
        if o == "bv":
            raise Unknown("free binder")
        if o == "chainsel":
            i = self.ev(a[0], env)
            return bval(isinstance(i, tuple) and i[0] == "ci" and i[1] == 0)
        if o == "fmt":
            return ("str", "".join(self.part(x, env) for x in a))
        if o == "disp":
            return ("str", self.part(t, env))
        if o == "concat":
            return ("str", "".join(I.text(x) for x in I.items(self.ev(a[0], env))))
        if o == "call":
            return self.call(t, env)
        if o == "post":
            return self.post(t, env)
        if o == "lam":
            return self.lam(t, env)
        if o == "cases":
            for c in a:
                try:
                    if self.truth(c.a[0], env):
                        return self.ev(c.a[1], env)
                except Stop:
                    continue
            raise Stop("cases")
        if o == "iter":
            return self.ev(a[0], env)
        if o == "imap" or o in EN.ITERS:
            raise Unknown("iterator")
        if o == "cparam":
            return I.W
        if o == "item":
            return I.fn("item", a[0])
        if o in ("const", "zst", "bits", "other", "fn", "bytes", "uninit", "rangefull", "closure"):
            if o == "closure":
                raise Unknown("closure")
            return I.fn(o, tuple(str(x) for x in a[:2]))
        if o == "eid" or o == "nid" or o == "json" or o == "egnew":
            return I.fn(o, *[self.ev(x, env) for x in a])
        if o == "slicefrom":
            n = self.num(a[1], env)
            xs = I.items(self.ev(a[0], env))
            if n == 0:
                return self.ev(a[0], env)
            return ("l",) + tuple(xs[n:])
        if o == "slicerange":
            xs = I.items(self.ev(a[0], env))
            x, y = self.num(a[1], env), self.num(a[2], env)
            if x > y or y > len(xs):
                raise Stop("slice")
            return ("l",) + tuple(xs[x:y])
        if o in ("rev", "last", "butlast", "removed", "dedup", "sorted", "idxend"):
            xs = I.items(self.ev(a[0], env))
            if o == "rev":
                return ("l",) + tuple(reversed(xs))
            if o == "last":
                if not xs:
                    raise Stop("last")
                return xs[-1]
            if o == "idxend":
                if len(xs) < a[1]:
                    raise Stop("last")
                return xs[-a[1]]
            if o == "butlast":
                if isinstance(self.ev(a[0], env), tuple) and self.ev(a[0], env)[0] == "m":
                    return ("m",) + self.ev(a[0], env)[1:-1]
                return ("l",) + tuple(xs[:-1])
            if o == "removed":
                i = self.num(a[1], env)
                if i >= len(xs):
                    raise Stop("remove")
                return ("l",) + tuple(xs[:i] + xs[i + 1:])
            if o == "dedup":
                out = []
                for x in xs:
                    if not out or not I.eq(out[-1], x):
                        out.append(x)
                return ("l",) + tuple(out)
            return self.sort(t, xs, env)
        if o in ("lastkey", "lastval"):
            es = I.entries(self.ev(a[0], env))
            if not es:
                raise Stop("last")
            return es[-1][0 if o == "lastkey" else 1]
        if o == "lamtmp":
            raise Unknown("callback argument")
        raise Unknown(o)

    def param(self, i):
        if self.args is not None:
            if i >= len(self.args):
                raise Unknown("argument")
            return self.args[i]
        ty = self.ptys[i] if i < len(self.ptys) else ""
        ty = re.sub(r"^(&('[a-z_]+ )?(mut )?)+", "", ty)
        I = self.I

        def g():
            if ty in ("str", "std::string::String", "alloc::string::String"):
                return ("str", I.rng.choice(I.strs))
            if ty == "bool":
                return bval(I.rng.random() < .5)
            if re.search(r"(^|::)BV<", ty):
                w = I.W
                x = I.rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), w, w - 1, w + 1, I.rng.getrandbits(w), I.rng.getrandbits(w)]) & ((1 << w) - 1)
                return ("s", "BV", (("0", x),))
            if ty in ("usize", "u32", "u64", "i32"):
                return I.rng.choice(I.ints + I.bigs + [0, 1, 2, 3, 4, 5, 8])
            if ty == "u128":
                return I.rng.choice(I.ints + [I.W, I.W - 1, I.W + 1, M128, I.rng.getrandbits(128), I.rng.getrandbits(8)])
            if "Formatter<" in ty:
                return ("cat", "")
            return 300000 + i
        return I.fn("param", i, gen=g)

    def agg(self, t, env):
        kind, path, var, names = t.a[:4]
        vals = [self.ev(x, env) for x in t.a[4:]]
        if kind == "tuple":
            return ("t",) + tuple(vals)
        if kind == "array":
            return ("l",) + tuple(vals)
        if kind == "closure":
            raise Unknown("closure")
        if kind != "adt":
            return ("t",) + tuple(vals)
        if not var and not names:
            return ("s", "", (("#", ("str", path)),))
        return ("s", var, tuple(zip(names, vals)))

    def upd(self, t, env):
        base, step, v = t.a
        I = self.I
        b, x = self.ev(base, env), self.ev(v, env)
        k = step[0]
        if k == "f":
            name, variant = step[1], step[2]
            if isinstance(b, int) or b[0] == "g":
                return b if I.eq(I.field(b, name, variant), x) else ("o", b, (((name, variant), x),))
            if b[0] == "o":
                fs = tuple(sorted([(n, y) for n, y in b[2] if n != (name, variant)] + [((name, variant), x)], key=lambda p: p[0]))
                return ("o", b[1], fs)
            if b[0] == "s":
                return ("s", b[1], tuple((n, x if n == name else y) for n, y in b[2]))
            if b[0] == "t":
                i = int(name) + 1
                return b[:i] + (x,) + b[i + 1:]
        if k == "i":
            i = self.ev(step[1], env)
            i = i[2] if isinstance(i, tuple) and i[0] == "ci" else i
            xs = I.items(b)
            if not isinstance(i, int) or i >= len(xs):
                raise Stop("index")
            if I.eq(xs[i], x):
                return b
            return ("l",) + tuple(xs[:i]) + (x,) + tuple(xs[i + 1:])
        if k == "slot":
            key = self.ev(step[1], env)
            return self.insert(b, key, x)
        if k == "at":
            return self.log(b, ("at", step[1], self.ev(step[2], env), x))
        raise Unknown("update %s" % k)

    def insert(self, m, key, x):
        I = self.I
        es = I.entries(m)
        if isinstance(m, int) or m[0] == "g":
            I.asked.setdefault(m, set()).add(key)
        out, hit = [], False
        same = False
        for p, q in es:
            if I.eq(p, key):
                hit = True
                same = I.eq(q, x)
                out.append((p, x))
            else:
                out.append((p, q))
        if hit and same:
            return m
        if not hit:
            out.append((key, x))
        return ("m",) + tuple(out)

    def log(self, b, e):
        if isinstance(b, tuple) and b[0] == "g":
            return b + (e,)
        return ("g", b, e)

    def lt(self, x, y):
        return self.I.cmp(x, y) < 0

    def bin(self, op, x, y):
        I = self.I
        if op not in ("BitAnd", "BitOr", "BitXor"):
            x = int(x[1]) if isinstance(x, tuple) and x[0] == "b" else x
            y = int(y[1]) if isinstance(y, tuple) and y[0] == "b" else y
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and not (isinstance(x, int) and isinstance(y, int)):
            p, q = sorted((x, y), key=repr)
            return I.fn("bin", op, p, q)
        if not (isinstance(x, int) and isinstance(y, int)):
            return I.fn("bin", op, x, y)
        if op == "Add":
            return (x + y) & M128 if x + y > M128 else x + y
        if op == "Sub":
            return x - y if x >= y else (x - y) & M128
        if op == "Mul":
            return (x * y) & M128
        if op == "BitAnd":
            return x & y
        if op == "BitOr":
            return x | y
        if op == "BitXor":
            return x ^ y
        if op in ("Div", "Rem"):
            if y == 0:
                raise Stop("division by zero")
            return x // y if op == "Div" else x % y
        if op == "Shl":
            if y >= 128:
                raise Stop("shift")
            return (x << y) & M128
        if op == "Shr":
            if y >= 128:
                raise Stop("shift")
            return x >> y
        return I.fn("bin", op, x, y)

    def cast(self, ty, x):
        dst = ty.split("<-")[0].strip()
        m = re.match(r"^[ui](8|16|32|64|128|size)$", dst)
        if m and isinstance(x, int):
            w = 64 if m.group(1) == "size" else int(m.group(1))
            x &= (1 << w) - 1
            # signed numbers are kept sign-extended
            return x | M128 ^ ((1 << w) - 1) if dst[0] == "i" and x >> (w - 1) else x
        if m and isinstance(x, tuple) and x[0] == "b":
            return int(x[1])
        return x

    def part(self, p, env):
        I = self.I
        if p.op == "str":
            return p.a[0]
        if p.op == "disp":
            v = self.ev(p.a[0], env)
            if p.a[1] in ("s", ""):
                if isinstance(v, tuple) and v[0] == "str":
                    return v[1]
                if isinstance(v, int):
                    return I.text(v)
            return "<%s>" % I.fn("disp", v, p.a[1], gen=lambda: I.rng.randrange(10 ** 9))
        return I.text(self.ev(p, env))

    # -- sequences
    def seq(self, t, env):
        I = self.I
        base = self.ev(t.a[0], env)
        buf = None
        for g in t.a[1:]:
            kind, guard, bs = g.a[:3]
            for e in self.binds(bs, guard, env):
                xs = [self.ev(p, e) for p in g.a[3:]]
                if buf is not None:
                    if kind == "push":
                        buf.append(xs[0])
                        continue
                    base, buf = ("l",) + tuple(buf), None
                if kind == "push" and (isinstance(base, int) or base[0] not in ("cat", "g", "str")):
                    buf = list(I.items(base))
                    buf.append(xs[0])
                    continue
                base = self.step(base, kind, xs)
        return base if buf is None else ("l",) + tuple(buf)

    def step(self, b, kind, xs):
        I = self.I
        if isinstance(b, tuple) and b[0] == "cat":
            if kind == "push":
                return ("cat", b[1] + I.text(xs[0]))
            raise Unknown("formatter " + kind)
        if kind == "push":
            if isinstance(b, tuple) and b[0] in ("g",):
                return self.log(b, ("push",) + tuple(xs))
            if isinstance(b, tuple) and b[0] == "str":
                raise Unknown("push to string")
            return ("l",) + tuple(I.items(b)) + (xs[0],)
        if kind in ("pushuniq", "ins1"):
            ys = I.items(b)
            if any(I.eq(y, xs[0]) for y in ys):
                return b
            return ("l",) + tuple(ys) + (xs[0],)
        if kind == "ins":
            return self.insert(b, xs[0], xs[1])
        if kind == "insabsent":
            if I.find(b, xs[0]) is not None:
                return b
            return self.insert(b, xs[0], xs[1])
        if kind == "grp":
            r = I.find(b, xs[0])
            old = r[0] if r else NIL
            return self.insert(b, xs[0], ("l",) + tuple(I.items(old)) + (xs[1],))
        if kind == "del":
            if isinstance(b, tuple) and b[0] == "l":
                return ("l",) + tuple(y for y in b[1:] if not I.eq(y, xs[0]))
            r = I.find(b, xs[0])
            if r is None:
                return b
            return ("m",) + tuple((p, q) for p, q in I.entries(b) if not I.eq(p, xs[0]))
        if kind == "union":
            return self.log(b, ("union",) + tuple(sorted(xs, key=repr)))
        if kind in ("addn", "addx", "rebuild", "do", "set", "ev"):
            return self.log(b, (kind,) + tuple(xs))
        raise Unknown("generator " + kind)

    def sort(self, t, xs, env):
        I = self.I
        k = t.a[1]
        if k.op == "str":
            return ("l",) + tuple(sorted(xs, key=cmp_to_key(I.cmp)))
        sa = [x for x in subterms(k) if x.op == "sortarg"]
        n = max([x.a[0] for x in sa], default=0) + 1
        src = self.ev(t.a[0], env)
        ismap = isinstance(src, tuple) and src[0] == "m" or n > 2

        def args(x):
            return [x[1], x[2]] if ismap and isinstance(x, tuple) and x[0] == "t" else [x]
        if ismap and isinstance(src, int):
            xs = [("t", p, q) for p, q in I.entries(src)]
        if k.op == "sortkey":
            def kf(x):
                e = env.with_({T_("sortarg", i): y for i, y in enumerate(args(x))})
                return self.ev(k.a[0], e)
            keyed = [(kf(x), x) for x in xs]
            out = [x for _, x in sorted(keyed, key=cmp_to_key(lambda p, q: I.cmp(p[0], q[0])))]
        else:
            def cf(x, y):
                vs = args(x) + args(y)
                e = env.with_({T_("sortarg", i): v for i, v in enumerate(vs)})
                w = I.variant(self.ev(k.a[0], e), ("Less", "Equal", "Greater"))
                return {"Less": -1, "Equal": 0, "Greater": 1}[w]
            out = sorted(xs, key=cmp_to_key(cf))
        if ismap:
            return ("m",) + tuple((x[1], x[2]) for x in out)
        return ("l",) + tuple(out)

    # -- calls
    def lam(self, t, env):
        n, body = t.a
        bvs = sorted([x for x in subterms(body) if x.op == "bv" and x.a[0] >= 1000], key=lambda x: x.a[0])
        # the outermost binders of this abstraction carry the largest numbers
        lv = max([(x.a[0] - 1000) // 10 for x in bvs], default=0)
        out = []
        for probe in range(3):
            d = {T_("bv", 1000 + 10 * lv + k): CB + 10 * probe + k for k in range(n)}
            try:
                out.append(self.ev(body, env.with_(d)))
            except Stop:
                out.append(("stop",))
        return ("lam",) + tuple(out)

    def rec(self, t, env):
        """value of a recursive call: the called function's own summary, read on the arguments"""
        name = t.a[0]
        args = tuple(self.ev(x, env) for x in t.a[1:])
        key = name, args
        r = self.recmemo.get(key)
        if r is None:
            if self.depth >= self.DEPTH or any(isinstance(x, tuple) and x and x[0] == "lam" for x in args):
                raise Unknown("recursion")
            S = self.unfold(name)
            if S is None:
                raise Unknown("call " + name)
            R = Reader(S, self.I, self.vocab, self.ptys, self.stop_at, self.opts, self.odd, self.cov, self.unfold, args,
                       self.depth + 1)
            R.recmemo, R.steps = self.recmemo, self.steps
            o = R.outcome()
            self.steps = R.steps
            if o is None:
                o = "stop"
            elif len(o[3]) > 1:
                raise Unknown("effects of a recursive call")
            else:
                o = o[1], dict(zip(R.mutkeys, o[2][1:]))
            r = self.recmemo[key] = o
        if r == "stop":
            raise Stop("call")
        return r

    def call(self, t, env):
        name = t.a[0]
        I = self.I
        if self.unfold and name in self.E.recs:
            return self.rec(t, env)[0]
        sem = SEM.get(name)
        if sem is None and name.startswith("parse:"):
            sem = parse_sem(name[6:])
        elif sem is None and name not in self.vocab:
            raise Unknown("call " + name)
        args = [self.ev(x, env) for x in t.a[1:]]
        if sem is not None:
            r = sem(self, args)
            if r is not None:
                return r
        if name in COMM:
            args = sorted(args, key=repr)
        return I.fn("call", name, *args)

    def post(self, t, env):
        i, call = t.a
        name = call.a[0]
        if self.unfold and name in self.E.recs:
            m = self.rec(call, env)[1]
            if i not in m:
                raise Unknown("argument of a recursive call")
            return m[i]
        sem = MUT.get(name) if i == 0 else None
        if sem is None and name not in self.vocab:
            raise Unknown("call " + name)
        base = self.ev(call.a[1 + i], env)
        others = tuple(self.ev(x, env) for k, x in enumerate(call.a[1:]) if k != i)
        if sem:
            r = sem(self, base, others)
            if r is not None:
                return r
        return self.log(base, ("do", ("str", name)) + others)

    # -- loops without closed form
    def loopvar(self, t, env):
        L = self.E.loops[t.a[0]]
        key = ("loop", L.id)
        if t.op == "phi" and L.binds and all(iv in env.v for iv, _ in L.binds):
            return self.at_iteration(L, t, env)
        ex = env.memo.get(key)
        if isinstance(ex, Exception):
            raise ex
        if ex is None:
            try:
                ex = self.runloop(L, env)
            except (Stop, Unknown) as x:
                env.memo[key] = x
                raise
            env.memo[key] = ex
        if t in ex:
            return ex[t]
        raise Stop("loop variable")

    def at_iteration(self, L, t, env):
        """value of a loop's variable at the start of the iteration that env is in"""
        ivs = [iv for iv, _ in L.binds]
        out = env
        while out is not None and any(iv in out.v for iv in ivs):
            out = out.up
        out = out or self.root
        tr = out.memo.get(("trace", L.id))
        if tr is None:
            tr = out.memo["trace", L.id] = [self.iterations(L, out), {}, None, None]
        at = tuple(env.v[iv] for iv in ivs)
        while at not in tr[1] and tr[2] is None and tr[3] is None:
            try:
                d, cur = next(tr[0])
                tr[1].setdefault(tuple(d[iv] for iv in ivs), cur)
            except StopIteration as x:
                tr[3] = x.value
            except (Stop, Unknown) as x:
                tr[2] = x
        ex = tr[1].get(at)
        if ex is None:
            if tr[2] is not None:
                raise tr[2]
            ex = tr[3]
        if t in ex:
            return ex[t]
        raise Stop("loop variable")

    def runloop(self, L, env):
        """values of the loop's variables when it is left"""
        g = self.iterations(L, env)
        while True:
            try:
                next(g)
            except StopIteration as x:
                return x.value

    def iterations(self, L, env):
        """(indices, values of the loop's variables) at the start of each iteration; returns them as they are at the end"""
        inf = L.phis
        phis = {phi: init for phi, init in inf.values()}
        cur = {phi: self.ev(init, env) for phi, init in phis.items()}
        cb = L.key.rsplit(".", 1)[-1].startswith("cb") and not L.binds
        if L.binds:
            its = self.indices(L.binds, env)
        elif cb:
            its = [{} for _ in range(2)]
        else:
            its = [{} for _ in range(40)]
        full = not L.binds and not cb
        for it, d in enumerate(its):
            self.tick()
            yield d, cur
            if cb:
                lt = [x for x in self.looplams(L)]
                d = {x: CB + 10 * it + i for i, x in enumerate(lt)}
            dd = dict(d)
            dd.update(cur)
            e = env.with_(dd)
            nxt = None
            for loc, vals, evs in L.backs:
                if self.holds(loc, e):
                    nxt = {inf[p][0]: self.ev(v, e) for p, v in vals.items()}
                    break
            if nxt is None:
                full = False
                if cb:
                    continue
                return dd
            cur = nxt
        if full:
            raise Unknown("loop bound")
        return cur

    def looplams(self, L):
        r = getattr(L, "_lams", None)
        if r is None:
            s = set()
            for loc, vals, evs in L.backs:
                for t, _ in loc:
                    s |= {x for x in subterms(t) if x.op == "lamtmp"}
                for v in vals.values():
                    s |= {x for x in subterms(v) if x.op == "lamtmp"}
            r = L._lams = sorted(s, key=lambda x: x.a)
        return r

    def holds(self, loc, e):
        for t, v in loc:
            if t.op == "done":
                if v:
                    return False
                continue
            try:
                if self.truth(t, e) != v:
                    return False
            except Stop:
                return False
        return True

    def indices(self, binds, env, pre=None):
        pre = pre or {}
        if not binds:
            yield dict(pre)
            return
        iv, dom = binds[0]
        e = env.with_(pre) if pre else env
        for i in self.dom(dom, e):
            p = dict(pre)
            p[iv] = i
            yield from self.indices(binds[1:], env, p)


# ---- meaning of library operations ----------------------------------------------------------------
SEM, MUT = {}, {}
COMM = {"Ast::_eq", "BV::bvadd", "BV::bvmul", "BV::bvand", "BV::bvor", "BV::bvxor"}


def sem(*names):
    def d(f):
        for n in names:
            SEM[n] = f
        return f
    return d


def ints(args):
    return all(isinstance(x, int) for x in args)


def arith(name, f):
    """f: of the arguments and, last, the greatest value and the width; unsigned types narrower than 128 bits have their
    own operations `name@uW`"""
    for w in (8, 16, 32, 64, 128):
        def g(R, a, M=(1 << w) - 1, w=w):
            return f(*a, M, w) if ints(a) else None
        SEM[name if w == 128 else "%s@u%d" % (name, w)] = g


def fits(x, M):
    return optv(x if 0 <= x <= M else None)


def optv(x):
    return NONEV if x is None else ("s", "Some", (("0", x),))


def radix(s, b):
    s = s[1:] if s[:1] == "+" else s
    d = "0123456789abcdefghijklmnopqrstuvwxyz"[:b]
    if not s or any(c.lower() not in d for c in s):
        return None
    return int(s, b)


def number(R, s, b, M):
    n = radix(s, b)
    if n is None or n > M:
        return ("s", "Err", (("0", R.I.fn("parse error", s, b)),))
    return ("s", "Ok", (("0", n),))


def parse_sem(ty):
    """reading a value: numbers have one meaning, values of the domain may look like anything"""
    m = re.match(r"^u(8|16|32|64|128|size)$", ty)
    if m:
        w = 64 if m.group(1) == "size" else int(m.group(1))
        return lambda R, a: number(R, R.I.text(a[0]), 10, (1 << w) - 1)
    if re.match(r"^(i(8|16|32|64|128|size)|f32|f64|bool|char|String)$", ty):
        raise Unknown("call parse:" + ty)
    return lambda R, a: None


@sem("from_str_radix")
def s_radix(R, a):
    return number(R, R.I.text(a[0]), a[1], M128) if isinstance(a[1], int) and 2 <= a[1] <= 36 else None


def pow_(x, y, M, w):
    if y > 64:
        raise Unknown("power")
    if x ** y > M:
        raise Stop("overflow")
    return x ** y


arith("num::wrapping_add", lambda x, y, M, w: (x + y) & M)
arith("num::wrapping_sub", lambda x, y, M, w: (x - y) & M)
arith("num::wrapping_mul", lambda x, y, M, w: (x * y) & M)
arith("num::wrapping_neg", lambda x, M, w: (-x) & M)
arith("num::wrapping_pow", lambda x, y, M, w: pow(x, y, M + 1))
arith("num::saturating_sub", lambda x, y, M, w: max(0, x - y))
arith("num::saturating_add", lambda x, y, M, w: min(x + y, M))
arith("num::saturating_mul", lambda x, y, M, w: min(x * y, M))
arith("num::saturating_pow", lambda x, y, M, w: min(x ** y, M) if y < 200 else None)
arith("num::rotate_left", lambda x, y, M, w: (x << (y % w) | x >> (w - y % w)) & M)
arith("num::rotate_right", lambda x, y, M, w: (x >> (y % w) | x << (w - y % w)) & M)
arith("num::count_ones", lambda x, M, w: bin(x & M).count("1"))
arith("num::count_zeros", lambda x, M, w: w - bin(x & M).count("1"))
arith("num::leading_zeros", lambda x, M, w: w - (x & M).bit_length())
arith("num::trailing_zeros", lambda x, M, w: ((x & -x).bit_length() - 1) if x else w)
arith("num::is_power_of_two", lambda x, M, w: bval(x > 0 and x & (x - 1) == 0))
arith("num::next_power_of_two", lambda x, M, w: 1 << max(0, (x - 1).bit_length()))
arith("num::pow", pow_)
arith("num::wrapping_shl", lambda x, y, M, w: (x << (y % w)) & M)
arith("num::wrapping_shr", lambda x, y, M, w: x >> (y % w))
arith("num::abs_diff", lambda x, y, M, w: abs(x - y))
arith("num::checked_add", lambda x, y, M, w: fits(x + y, M))
arith("num::checked_sub", lambda x, y, M, w: fits(x - y, M))
arith("num::checked_mul", lambda x, y, M, w: fits(x * y, M))
arith("num::checked_div", lambda x, y, M, w: optv(x // y if y else None))
arith("num::checked_rem", lambda x, y, M, w: optv(x % y if y else None))
arith("num::checked_pow", lambda x, y, M, w: fits(x ** y, M) if y < 200 else None)
arith("num::checked_neg", lambda x, M, w: optv(0 if x == 0 else None))
arith("num::checked_shl", lambda x, y, M, w: optv((x << y) & M if y < w else None))
arith("num::checked_shr", lambda x, y, M, w: optv(x >> y if y < w else None))
arith("num::overflowing_add", lambda x, y, M, w: ("t", (x + y) & M, bval(x + y > M)))
arith("num::overflowing_sub", lambda x, y, M, w: ("t", (x - y) & M, bval(x < y)))
arith("num::overflowing_mul", lambda x, y, M, w: ("t", (x * y) & M, bval(x * y > M)))
arith("num::div_ceil", lambda x, y, M, w: -(-x // y) if y else None)
arith("num::rem_euclid", lambda x, y, M, w: x % y if y else None)
arith("num::div_euclid", lambda x, y, M, w: x // y if y else None)


def strs(R, args):
    out = []
    for a in args:
        if isinstance(a, tuple) and a[0] not in ("str",):
            return None
        out.append(R.I.text(a))
    return out


def strfn(name, f):
    def g(R, a):
        s = strs(R, a)
        return None if s is None else f(*s)
    SEM[name] = g


def S(x):
    return ("str", x)


def L(xs):
    return ("l",) + tuple(xs)


def trim_l(a, b):
    while b and a.startswith(b):
        a = a[len(b):]
    return a


def trim_r(a, b):
    while b and a.endswith(b):
        a = a[:len(a) - len(b)]
    return a


def split_once(a, b):
    i = a.find(b)
    return NONEV if i < 0 else optv(("t", S(a[:i]), S(a[i + len(b):])))


def rsplit_once(a, b):
    i = a.rfind(b)
    return NONEV if i < 0 else optv(("t", S(a[:i]), S(a[i + len(b):])))


strfn("str::contains", lambda a, b: bval(b in a))
strfn("str::starts_with", lambda a, b: bval(a.startswith(b)))
strfn("str::ends_with", lambda a, b: bval(a.endswith(b)))
strfn("str::split_once", split_once)
strfn("str::rsplit_once", rsplit_once)
strfn("str::trim", lambda a: S(a.strip()))
strfn("str::trim_start", lambda a: S(a.lstrip()))
strfn("str::trim_end", lambda a: S(a.rstrip()))
strfn("str::replace", lambda a, b, c: S(a.replace(b, c)) if b else None)
strfn("str::strip_prefix", lambda a, b: optv(S(a[len(b):])) if a.startswith(b) else NONEV)
strfn("str::strip_suffix", lambda a, b: optv(S(a[:len(a) - len(b)])) if a.endswith(b) else NONEV)
strfn("str::split", lambda a, b: L(S(x) for x in a.split(b)) if b else None)
strfn("str::lines", lambda a: L(S(x) for x in a.splitlines()))
strfn("str::split_whitespace", lambda a: L(S(x) for x in a.split()))
strfn("str::chars", lambda a: L(S(x) for x in a))
strfn("str::to_lowercase", lambda a: S(a.lower()))
strfn("str::to_ascii_lowercase", lambda a: S(a.lower()))
strfn("str::to_uppercase", lambda a: S(a.upper()))
strfn("str::eq_ignore_ascii_case", lambda a, b: bval(a.lower() == b.lower()))
strfn("str::trim_start_matches", lambda a, b: S(trim_l(a, b)))
strfn("str::trim_end_matches", lambda a, b: S(trim_r(a, b)))
strfn("str::trim_matches", lambda a, b: S(trim_r(trim_l(a, b), b)))
strfn("str::rfind", lambda a, b: optv(a.rfind(b)) if a.rfind(b) >= 0 else NONEV)
strfn("str::find", lambda a, b: optv(a.find(b)) if a.find(b) >= 0 else NONEV)


@sem("str::repeat")
def s_repeat(R, a):
    s = strs(R, a[:1])
    return S(s[0] * a[1]) if s and isinstance(a[1], int) and a[1] < 50 else None


@sem("Iterator::next")
def s_next(R, a):
    xs = R.I.items(a[0])
    return optv(xs[0] if xs else None)


@sem("Iterator::sum")
def s_sum(R, a):
    xs = R.I.items(a[0])
    if not ints(xs):
        return R.I.fn("sum", *sorted(xs, key=repr)) if xs else 0
    return sum(xs)


@sem("Iterator::product")
def s_prod(R, a):
    xs = R.I.items(a[0])
    p = 1
    for x in xs:
        p = p * R.I.num(x) & M128
    return p


@sem("Iterator::max", "Iterator::min")
def s_max(R, a):
    xs = R.I.items(a[0])
    if not xs:
        raise Stop("max")
    return sorted(xs, key=cmp_to_key(R.I.cmp))[-1]


@sem("Iterator::min")
def s_min(R, a):
    xs = R.I.items(a[0])
    if not xs:
        raise Stop("max")
    return sorted(xs, key=cmp_to_key(R.I.cmp))[0]


@sem("slice::concat")
def s_concat(R, a):
    xs = R.I.items(a[0])
    if all(isinstance(x, tuple) and x[0] == "str" for x in xs) and xs:
        return S("".join(x[1] for x in xs))
    out = []
    for x in xs:
        out += R.I.items(x)
    return L(out)


@sem("slice::join", "Itertools::join")
def s_join(R, a):
    s = strs(R, a[1:2])
    if s is None:
        return None
    return S(s[0].join(R.part(T_("disp", T_("hole", 0), ""), Env({T_("hole", 0): x})) if not isinstance(x, tuple) or x[0] != "str"
                       else x[1] for x in R.I.items(a[0])))


@sem("Itertools::sorted")
def s_sorted(R, a):
    return L(sorted(R.I.items(a[0]), key=cmp_to_key(R.I.cmp)))


@sem("Itertools::dedup")
def s_dedup(R, a):
    out = []
    for x in R.I.items(a[0]):
        if not out or not R.I.eq(out[-1], x):
            out.append(x)
    return L(out)


@sem("Itertools::unique")
def s_unique(R, a):
    out = []
    for x in R.I.items(a[0]):
        if not any(R.I.eq(y, x) for y in out):
            out.append(x)
    return L(out)


@sem("Itertools::tuple_combinations")
def s_tc(R, a):
    xs = R.I.items(a[0])
    return L(("t", xs[i], xs[j]) for i in range(len(xs)) for j in range(i + 1, len(xs)))


@sem("Itertools::cartesian_product")
def s_cart(R, a):
    return L(("t", x, y) for x in R.I.items(a[0]) for y in R.I.items(a[1]))


@sem("Itertools::multi_cartesian_product")
def s_mcart(R, a):
    import itertools
    ls = [R.I.items(x) for x in R.I.items(a[0])]
    n = 1
    for x in ls:
        n *= len(x)
    if n > 200:
        raise Unknown("long")
    if not ls:
        return NIL if False else L([NIL])
    return L(L(x) for x in itertools.product(*ls))


@sem("Iterator::step_by")
def s_step(R, a):
    n = R.I.num(a[1])
    if n == 0:
        raise Stop("step")
    return L(R.I.items(a[0])[::n])


@sem("slice::windows", "Iterator::windows")
def s_windows(R, a):
    n, xs = R.I.num(a[1]), R.I.items(a[0])
    if n == 0:
        raise Stop("windows")
    return L(L(xs[i:i + n]) for i in range(len(xs) - n + 1))


@sem("slice::chunks")
def s_chunks(R, a):
    n, xs = R.I.num(a[1]), R.I.items(a[0])
    if n == 0:
        raise Stop("chunks")
    return L(L(xs[i:i + n]) for i in range(0, len(xs), n))


@sem("Ordering::reverse")
def s_ordrev(R, a):
    v = R.I.variant(a[0], ("Less", "Equal", "Greater"))
    return ("s", {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[v], ())


@sem("serde_json::to_value", "Iterator::cloned")
def s_none(R, a):
    return None


def mut(*names):
    def d(f):
        for n in names:
            MUT[n] = f
        return f
    return d


@mut("Iterator::next")
def u_next(R, b, o):
    return L(R.I.items(b)[1:])


@mut("Vec::truncate")
def x_trunc(R, b, o):
    return L(R.I.items(b)[: R.I.num(o[0])])


@mut("Vec::insert")
def x_insert(R, b, o):
    xs = R.I.items(b)
    i = R.I.num(o[0])
    if i > len(xs):
        raise Stop("insert")
    return L(xs[:i] + [o[1]] + xs[i:])


@mut("slice::swap")
def x_swap(R, b, o):
    xs = R.I.items(b)
    i, j = R.I.num(o[0]), R.I.num(o[1])
    if i >= len(xs) or j >= len(xs):
        raise Stop("swap")
    xs[i], xs[j] = xs[j], xs[i]
    return L(xs)


@mut("Vec::swap_remove")
def x_swaprm(R, b, o):
    xs = R.I.items(b)
    i = R.I.num(o[0])
    if i >= len(xs):
        raise Stop("remove")
    xs[i] = xs[-1]
    return L(xs[:-1])


@mut("IndexMap::sort_keys")
def x_sortkeys(R, b, o):
    return ("m",) + tuple(sorted(R.I.entries(b), key=cmp_to_key(lambda p, q: R.I.cmp(p[0], q[0]))))


@mut("IndexMap::truncate")
def x_mtrunc(R, b, o):
    return ("m",) + tuple(R.I.entries(b)[: R.I.num(o[0])])


@mut("Vec::sort", "slice::sort", "slice::sort_unstable")
def x_sort(R, b, o):
    return L(sorted(R.I.items(b), key=cmp_to_key(R.I.cmp)))


@mut("slice::rotate_left", "slice::rotate_right")
def x_rotl(R, b, o):
    xs, k = R.I.items(b), R.I.num(o[0])
    if k > len(xs):
        raise Stop("rotate")
    return L(xs[k:] + xs[:k])


@mut("slice::rotate_right")
def x_rotr(R, b, o):
    xs, k = R.I.items(b), R.I.num(o[0])
    if k > len(xs):
        raise Stop("rotate")
    return L(xs[len(xs) - k:] + xs[: len(xs) - k])


@mut("slice::fill")
def x_fill(R, b, o):
    return L([o[0]] * len(R.I.items(b)))


@mut("Vec::resize")
def x_resize(R, b, o):
    xs, n = R.I.items(b), R.I.num(o[0])
    if n > 64:
        raise Unknown("long")
    return L((xs + [o[1]] * n)[:n])


@mut("Vec::split_off")
def x_splitoff(R, b, o):
    xs, n = R.I.items(b), R.I.num(o[0])
    if n > len(xs):
        raise Stop("split_off")
    return L(xs[:n])


@sem("Vec::split_off")
def s_splitoff(R, a):
    xs, n = R.I.items(a[0]), R.I.num(a[1])
    if n > len(xs):
        raise Stop("split_off")
    return L(xs[n:])


@sem("Vec::swap_remove")
def s_swaprm(R, a):
    xs, n = R.I.items(a[0]), R.I.num(a[1])
    if n >= len(xs):
        raise Stop("remove")
    return xs[n]


@sem("slice::chunks_exact")
def s_chunksx(R, a):
    n, xs = R.I.num(a[1]), R.I.items(a[0])
    if n == 0:
        raise Stop("chunks")
    return L(L(xs[i:i + n]) for i in range(0, len(xs) - n + 1, n))


@sem("slice::rchunks")
def s_rchunks(R, a):
    n, xs = R.I.num(a[1]), R.I.items(a[0])
    if n == 0:
        raise Stop("chunks")
    return L(L(xs[max(0, i - n):i]) for i in range(len(xs), 0, -n))


@sem("slice::split_first", "slice::split_last")
def s_splitfirst(R, a):
    xs = R.I.items(a[0])
    return optv(("t", xs[0], L(xs[1:])) if xs else None)


@sem("slice::split_last")
def s_splitlast(R, a):
    xs = R.I.items(a[0])
    return optv(("t", xs[-1], L(xs[:-1])) if xs else None)


@sem("slice::split_at")
def s_splitat(R, a):
    xs, n = R.I.items(a[0]), R.I.num(a[1])
    if n > len(xs):
        raise Stop("split_at")
    return ("t", L(xs[:n]), L(xs[n:]))


@sem("slice::starts_with")
def s_sstarts(R, a):
    xs, ys = R.I.items(a[0]), R.I.items(a[1])
    return bval(len(ys) <= len(xs) and all(R.I.eq(x, y) for x, y in zip(xs, ys)))


@sem("slice::ends_with")
def s_sends(R, a):
    xs, ys = R.I.items(a[0]), R.I.items(a[1])
    return bval(len(ys) <= len(xs) and all(R.I.eq(x, y) for x, y in zip(xs[len(xs) - len(ys):], ys)))


@sem("slice::is_sorted", "Iterator::is_sorted")
def s_issorted(R, a):
    xs = R.I.items(a[0])
    return bval(all(R.I.cmp(x, y) <= 0 for x, y in zip(xs, xs[1:])))


@sem("slice::repeat")
def s_srepeat(R, a):
    xs, n = R.I.items(a[0]), R.I.num(a[1])
    if n * len(xs) > 200:
        raise Unknown("long")
    return L(xs * n)


@sem("Itertools::all_unique")
def s_allunique(R, a):
    xs = R.I.items(a[0])
    return bval(not any(R.I.eq(xs[i], xs[j]) for i in range(len(xs)) for j in range(i)))


@sem("Itertools::all_equal")
def s_allequal(R, a):
    xs = R.I.items(a[0])
    return bval(all(R.I.eq(xs[0], x) for x in xs[1:]))


@sem("Itertools::permutations")
def s_perms(R, a):
    import itertools
    xs, n = R.I.items(a[0]), R.I.num(a[1])
    if len(xs) > 5:
        raise Unknown("long")
    return L(L(p) for p in itertools.permutations(xs, n))


@sem("Itertools::combinations")
def s_combs(R, a):
    import itertools
    xs, n = R.I.items(a[0]), R.I.num(a[1])
    if len(xs) > 10:
        raise Unknown("long")
    return L(L(p) for p in itertools.combinations(xs, n))


@sem("Itertools::interleave")
def s_interleave(R, a):
    xs, ys, out = R.I.items(a[0]), R.I.items(a[1]), []
    for i in range(max(len(xs), len(ys))):
        out += xs[i:i + 1] + ys[i:i + 1]
    return L(out)


@sem("Itertools::intersperse")
def s_intersperse(R, a):
    out = []
    for x in R.I.items(a[0]):
        out += ([a[1]] if out else []) + [x]
    return L(out)


@sem("EGraph::find")
def s_find(R, a):
    """a canonical id is its own canonical id, and the id of a class"""
    I, x = R.I, a[1]
    cs = I.tab.get(("call", "EGraph::classes", a[0])) or I.preset.get(("call", "EGraph::classes", a[0]))
    ids = [I.field(c, "id") for c in cs[1:]] if cs else []
    if x in ids:
        return x
    for _ in range(20):
        y = I.fn("call", "EGraph::find", a[0], x, gen=lambda: I.rng.choice(ids) if ids else I.atom())
        k = ("call", "EGraph::find", a[0], y)
        if y == x:
            return x
        if k not in I.tab and k not in I.preset:
            I.tab[k] = y
        x = y
    raise Unknown("find")


@sem("EGraph::classes", "EGraph::classes_mut")
def s_classes(R, a):
    """classes have ids of their own; the canonical ids met so far are among them"""
    I = R.I

    def gen():
        ids = {k[3] for k, v in list(I.tab.items()) if k[:2] == ("call", "EGraph::find") and k[2] == a[0] and v == k[3]}
        n = max(I.genlen(), 1 if not ids else 0) if I.rng.random() < .9 else 0
        new = [x for x in range(8) if x not in ids]
        I.rng.shuffle(new)
        ids = sorted(ids, key=repr) + new[:n]
        I.rng.shuffle(ids)
        cs = []
        for x in ids:
            I.fresh += 1
            cs.append(I.fresh)
            I.tab["field", I.fresh, "id", ""] = x
        return L(cs)
    return I.fn("call", "EGraph::classes", a[0], gen=gen)


@sem("EGraph[]")
def s_class(R, a):
    cs = s_classes(R, a[:1])
    i = s_find(R, a)
    for c in cs[1:]:
        if R.I.field(c, "id") == i:
            return c
    raise Unknown("call EGraph[]")


@sem("Ord::clamp")
def s_clamp(R, a):
    lo, hi = a[1:]
    if R.I.cmp(lo, hi) > 0:
        raise Stop("clamp")
    return lo if R.I.cmp(a[0], lo) < 0 else hi if R.I.cmp(a[0], hi) > 0 else a[0]


for _n in ("is_null", "is_string", "is_number", "is_array", "is_object", "is_boolean", "is_u64", "is_i64", "is_f64"):
    SEM["Value::" + _n] = lambda R, a: None
for _n in ("fs::metadata", "Metadata::len", "Path::exists", "Metadata::is_file", "Path::is_file", "fs::exists"):
    SEM[_n] = lambda R, a: None


# ---- separation -----------------------------------------------------------------------------------
def roots_of(Sm):
    roots = []
    for (val, muts, evs), g in Sm.raw:
        roots += [val, g] + [m for _, m in muts] + list(evs)
    for L_ in Sm.E.loops.values():
        for loc, vals, ev in L_.backs:
            roots += [t for t, _ in loc] + list(vals.values()) + list(ev)
        roots += [d for _, d in L_.binds]
    return roots


def constants(*sums):
    ns, ss = set(), set()
    for Sm in sums:
        seen = set()
        for r in roots_of(Sm):
            for x in subterms(r, seen):
                if x.op == "int" and -1 < x.a[0] < 500:
                    ns |= {x.a[0], x.a[0] + 1, max(0, x.a[0] - 1)}
                elif x.op == "int" and x.a[0] >= 500:
                    ns |= {x.a[0], x.a[0] + 1}
                elif x.op == "str":
                    ss.add(x.a[0])
                elif x.op == "char":
                    ss.add(x.a[0])
    return ns, ss


def boundaries(A, B):
    """numbers just past what a narrowing conversion that only one side makes keeps"""
    ns = set()
    for x in odd_terms(A, B):
        if x.op == "cast":
            d, s = (x.a[0].split("<-") + [""])[:2]
            m, k = re.match(r"^ *[ui](8|16|32|64)$", d.strip()), re.match(r"^ *[ui](8|16|32|64|128|size)$", s.strip())
            if m:
                w = int(m.group(1))
                ns |= {1 << w, (1 << w) + 1, (1 << w) - 1}
                if k and k.group(1) == "128" or s.strip() == "":
                    ns |= {1 << 64, (1 << 64) + 1, 1 << 96, (1 << 100) + 5, M128}
            if k and k.group(1) == "128":
                ns |= {1 << 64, (1 << 64) + 1, 1 << 96, (1 << 100) + 5, M128}
    return ns


BITS = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}


def narrowed(A, B):
    """does the code convert to fewer bits where the reference does not?"""
    xs, ys = [], set()
    for S, out in ((A, xs.append), (B, ys.add)):
        seen = set()
        for r in roots_of(S):
            for x in subterms(r, seen):
                m = x.op == "cast" and re.match(r"^[ui](8|16|32|64|128|size)<-[ui](8|16|32|64|128|size)$", x.a[0].replace(" ", ""))
                if m and BITS[m.group(1)] < BITS[m.group(2)]:
                    out(x.a[0])
    return any(x not in ys for x in xs)


def shape(t):
    """where a value comes from, for telling values of enum type"""
    o = t.op
    if o == "call":
        return ("call", t.a[0])
    if o == "field":
        return ("field", t.a[1], t.a[2])
    if o in ("idx", "mget", "mval", "mkey", "last"):
        return (o, shape(t.a[0]))
    return None


def variant_sets(*sums):
    out = {}
    for Sm in sums:
        seen = set()
        for r in roots_of(Sm):
            for x in subterms(r, seen):
                if x.op == "is":
                    for n in x.a[2]:
                        out.setdefault(n, tuple(x.a[2]))
    return out


OPTV, RESV = ("None", "Some"), ("Ok", "Err")


def enums(*sums):
    out = {}
    for Sm in sums:
        seen = set()
        for r in roots_of(Sm):
            for x in subterms(r, seen):
                if x.op == "is" and x.a[2] in (OPTV, RESV):
                    k = shape(x.a[0])
                    if k is not None and k[1] is not None:
                        out[k] = x.a[2]
    return out


# operations of the language and its libraries have one meaning, so a term that applies one whose meaning the
# interpretation does not know cannot be told apart from one that does not; the operations of the domain
# (e-graphs, rewrites, solvers, the language trait) may mean anything
LIBRARY = re.compile(
    r"^(Add|AddAssign|Arc|Argument|Arguments|AsMut|AsRef|BTreeMap|BTreeSet|BinaryHeap|BitAnd|BitAndAssign|BitOr|BitOrAssign|"
    r"BitXor|Borrow|BorrowMut|Box|BufRead|BufReader|BufWriter|Cell|Clone|Cow|Default|Deref|DerefMut|Display|Debug|Div|"
    r"DoubleEndedIterator|Drop|Duration|Entry|OccupiedEntry|VacantEntry|ExactSizeIterator|Extend|Fn|FnMut|FnOnce|"
    r"Formatter|From|FromIterator|FromResidual|FromStr|HashMap|HashSet|Hash|Hasher|Index|IndexMap|IndexMut|IndexSet|"
    r"IndexedParallelIterator|Into|IntoIterator|IntoParallelIterator|IntoParallelRefIterator|Iterator|Itertools|"
    r"ManuallyDrop|Map|Mul|MulAssign|Neg|Not|Option|Ord|Ordering|OsStr|ParallelIterator|PartialEq|PartialOrd|Path|PathBuf|"
    r"Peekable|RangeInclusive|Range|Rc|Read|RefCell|Rem|Result|Set|Shl|Shr|String|Sub|SubAssign|ToOwned|ToString|Try|"
    r"TryFrom|TryInto|Value|Vec|VecDeque|Write|array|boxed|char|cmp|fmt|hint|[iu](8|16|32|64|128|size)|f64|f32|intrinsics|"
    r"iter|mem|num|option|parser|ptr|result|serde_json|slice|str|string|thread|time|vec)::")


def vocabulary(B, extra):
    v = {n for n in extra if not LIBRARY.match(n)}
    seen = set()
    for r in roots_of(B):
        for x in subterms(r, seen):
            if x.op == "call":
                v.add(x.a[0])
    return v


class Verdict:
    def __init__(self):
        self.value = self.stop = self.same = self.unknown = 0
        self.why = {}
        self.wit = None

    def __repr__(self):
        return "value=%d stop=%d same=%d unknown=%d %s" % (self.value, self.stop, self.same, self.unknown,
                                                           sorted(self.why.items(), key=lambda kv: -kv[1])[:4])


def trial(A, B, I, voc, ptys, stop_at, opts, odd, cov, passes=3, unfold=(None, None)):
    """value of both under one interpretation: "same", "value" or "stop", with the values"""
    def one(S, u):
        return Reader(S, I, voc, ptys, stop_at, opts, odd, cov, u).outcome()

    def verdict(a, b):
        if a is None or b is None:
            return "same" if a is None and b is None else "stop"
        return "same" if I.eq(a, b) else "value"

    a = b = None
    for rnd in range(passes):
        a, b = one(A, unfold[0]), one(B, unfold[1])
        if rnd < passes - 1:
            I.restart()
    r = verdict(a, b)
    for rnd in range(2 if r != "same" else 0):
        # an interpretation grows while it is read: what it says must not depend on who reads it first
        I.settle()
        if rnd % 2 == 0:
            b = one(B, unfold[1])
            a = one(A, unfold[0])
        else:
            a, b = one(A, unfold[0]), one(B, unfold[1])
        if verdict(a, b) != r:
            raise Unknown("unstable")
    return r, a, b


def odd_terms(A, B):
    xs, ys = set(), set()
    seen = set()
    for r in roots_of(A):
        xs.update(subterms(r, seen))
    seen = set()
    for r in roots_of(B):
        ys.update(subterms(r, seen))
    return xs ^ ys


def search(A, B, vocab, first, n, budget, want, base=60, unfold=(None, None)):
    """interpretations first, first+1, ..: some at random, then variations of those that read new parts of the terms"""
    ns, ss = constants(A, B)
    ns |= boundaries(A, B)
    voc = vocabulary(B, vocab)
    opts = enums(A, B)
    odd = odd_terms(A, B)
    shapes = variant_sets(A, B)
    ptys = [B.body.locals[i + 1][0] for i in range(B.body.argc)]
    V = Verdict()
    t0 = time.time()
    known, corpus = set(), []
    hits, owner, rare = {}, {}, []
    rng = random.Random(first)
    # the last part of the time goes to long collections, if the code mentions large numbers
    large = any(60 <= x <= LONG for x in ns) and n > 100
    small = budget * .6 if large else budget
    big = False
    for k in range(n * 3 if large else n):
        now = time.time() - t0
        if now > budget or V.value >= want:
            break
        if large and (k >= n or now > small):
            big = True
        seed = first + k
        vary = corpus and k >= base and rng.random() < .8
        cov = {}
        if vary:
            m = len(corpus)
            if rng.random() < .5 and rare:
                f = min(rng.sample(rare, min(6, len(rare))), key=lambda x: hits[x])
                p = corpus[owner[f]]
            else:
                p = corpus[rng.randrange(m // 2, m) if rng.random() < .6 else rng.randrange(m)]
            I = Interp(seed, ns, ss, ptys, p, long=big)
        else:
            I = Interp(seed, ns, ss, ptys, long=big)
        I.shapes = shapes
        try:
            r, a, b = trial(A, B, I, voc, ptys, t0 + budget, opts, odd, cov, 1 if big and not vary else 2 if vary else 3, unfold)
            if r == "same":
                V.same += 1
                if a is not None:
                    cov["outcome"] = 1
            elif r == "stop":
                V.stop += 1
                V.stopside = "code" if a is None else "reference"
            else:
                V.value += 1
                if V.wit is None:
                    V.wit = (seed, a, b)
        except Unknown as e:
            V.unknown += 1
            w = str(e)
            V.why[w] = V.why.get(w, 0) + 1
        for x in cov:
            hits[x] = hits.get(x, 0) + 1
        fresh = [x for x in cov if x not in known]
        if fresh:
            for x in fresh:
                owner[x] = len(corpus)
            rare += fresh
            known.update(fresh)
            corpus.append((I.tab, I.keys, I.pool, I.W, I.good, I.strs, I.names, list(I.hints)))
    V.corpus = len(corpus)
    return V


def separate(A, B, vocab, n=4000, budget=20.0, want=3, workers=None, unfold=(None, None)):
    """A: code, B: reference; unfold: summaries of recursive calls, by name, for each side"""
    workers = workers or min(8, os.cpu_count() or 1)
    V = search(A, B, vocab, 1, 100, budget / 2, want, unfold=unfold)
    if V.value or V.stop or V.same == 0 and V.unknown and set(V.why) and all(w.startswith("call ") for w in V.why):
        return V
    jobs = []
    for w in range(workers):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                X = search(A, B, vocab, 1000 * 1000 * (w + 1), n, budget, 1, unfold=unfold)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump((X.value, X.stop, X.same, X.unknown, X.why, getattr(X, "stopside", None),
                                 X.wit and (X.wit[0], repr(X.wit[1])[:4000], repr(X.wit[2])[:4000])), f)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        jobs.append((pid, rd))
    for pid, rd in jobs:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            v, s, m, u, why, side, wit = pickle.loads(data)
            V.value += v
            V.stop += s
            V.same += m
            V.unknown += u
            if side:
                V.stopside = side
            for x, y in why.items():
                V.why[x] = V.why.get(x, 0) + y
            if wit and V.wit is None:
                V.wit = wit
    return V
