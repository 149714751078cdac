"""Rules decided directly on the fact base (call sites, aggregates, types)."""
from cfg import short
import state
import terms as TM

LINTS = {}


def lint(f):
    LINTS[f.__name__] = f
    return f


def held(rule, what, fns, detail=""):
    return dict(rule=rule, what=what, status="held", functions=sorted(fns), key=rule + ":" + what, detail=detail)


def broken(rule, what, fn, at, text):
    return dict(rule=rule, what=what, status="violation", functions=[fn], key=rule + ":" + what, where=at,
                report="%s: %s (%s): %s" % (rule, what, at, text))


def undecided(rule, what, detail):
    return dict(rule=rule, what=what, status="undecided", functions=[], key=rule + ":" + what, detail=detail)


# ---- shared helpers -----------------------------------------------------------------------------
def all_bodies(F, crates=("ruler",)):
    for b in F.bodies:
        if b.crate in crates and b.kind in ("fn", "closure", "const") and not (b.kind == "fn" and F.derived(b)):
            yield b


def calls(b):
    for i, bl in enumerate(b.blocks):
        if bl is None:
            continue
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "const" and t[1][1].get("k") == "fn":
            yield i, t, t[1][1]


def operands(rv):
    """operands and places an rvalue reads"""
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "ref":
        return [["copy", rv[2]]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k in ("discr", "len"):
        return [["copy", rv[1]]]
    if k == "agg":
        return [o for o in rv[-1] if isinstance(o, list)] if isinstance(rv[-1], list) else []
    return []


def local_of(o):
    return o[1][0] if o and o[0] in ("copy", "move") else None


def callee(c):
    return c.get("res") or c["path"]


# ---- determinism --------------------------------------------------------------------------------
AMBIENT = ("rand::thread_rng", "thread_rng", "::from_entropy", "rand::random", "SystemTime::now", "std::env::var", "env::vars",
           "std::env::args", "process::id", "thread::current", "available_parallelism", "current_num_threads",
           "current_thread_index", "OsRng")
UNORDERED = ("for_each", "try_for_each", "for_each_with", "find_any", "find_map_any", "position_any", "par_bridge", "reduce",
             "reduce_with", "try_reduce", "fold", "fold_with", "spawn", "spawn_fifo")
HASH_ITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "into_iter", "drain", "retain",
             "extract_if", "extend", "from_iter", "union", "difference", "intersection", "symmetric_difference")
CLOCK = ("Instant::now", "Instant::elapsed", "SystemTime::now", "SystemTime::elapsed", "Instant::duration_since")


def random_hasher(t):
    """a std hash table type with the randomly seeded default hasher"""
    i = t.find("collections::HashMap<")
    j = t.find("collections::HashSet<")
    for k in (i, j):
        if k >= 0 and "BuildHasherDefault" not in t[k:]:
            return True
    return False


def clock_tainted(b, srcs):
    """locals that depend on the clock, and the branch that uses one"""
    taint = set()
    ch = True
    while ch:
        ch = False

        def add(l):
            nonlocal ch
            if l not in taint:
                taint.add(l)
                ch = True
        for bl in b.blocks:
            if bl is None:
                continue
            for pl, rv, _ in bl["s"]:
                if any(local_of(o) in taint for o in operands(rv)):
                    add(pl[0])
            t = bl["t"]
            if t[0] == "call":
                f = t[1]
                nm = callee(f[1]) if f[0] == "const" and f[1].get("k") == "fn" else ""
                if any(nm.endswith(c) for c in CLOCK) or nm in srcs or any(local_of(a) in taint for a in t[2]):
                    add(t[3][0])
    for bl in b.blocks:
        if bl is not None and bl["t"][0] == "switch" and local_of(bl["t"][1]) in taint:
            return taint, bl["sp"] if "sp" in bl else b.span
    return taint, None


@lint
def deterministic(F, G, P, C):
    res, fns, sites = [], set(), 0
    R = "no-ambient-input"
    srcs = set()
    for _ in range(3):
        for b in all_bodies(F):
            taint, _x = clock_tainted(b, srcs)
            if 0 in taint:
                srcs.add(b.path)
    for b in all_bodies(F):
        fns.add(short(b.path))
        for i, t, c in calls(b):
            sites += 1
            nm = callee(c)
            at = t[5]
            if any(nm.endswith(x) or x in nm for x in AMBIENT):
                res.append(broken(R, "%s calls %s" % (short(b.path), short(nm)), short(b.path), at,
                                  "reads a value that differs between runs"))
            last = nm.split("::")[-1]
            if ("rayon" in nm or any("rayon" in str(a) for a in c.get("args", ()))) and last in UNORDERED:
                res.append(broken(R, "%s uses rayon's %s" % (short(b.path), last), short(b.path), at,
                                  "its effects or result depend on the thread schedule"))
            if last in HASH_ITER and ("HashMap" in nm or "HashSet" in nm or "IntoIterator" in nm or "Extend" in nm or "FromIterator" in nm):
                a = [str(x) for x in c.get("args", ())]
                own = ("HashMap" in nm or "HashSet" in nm) and any("RandomState" in x for x in a)
                src = last in ("into_iter", "extend", "from_iter") and any(random_hasher(x) for x in a[-1:] + a[:1])
                if last in ("extend", "from_iter"):
                    own, src = False, any(random_hasher(x) for x in a[-1:])
                if own or src:
                    res.append(broken(R, "%s iterates a randomly seeded hash table" % short(b.path), short(b.path), at,
                                      "the iteration order differs between runs"))
        taint, sw = clock_tainted(b, srcs)
        if sw:
            res.append(broken(R, "%s branches on the clock" % short(b.path), short(b.path), sw,
                              "a decision depends on elapsed time"))
    if len(fns) < 100 or sites < 500:
        res.append(undecided(R, "coverage", "only %d functions and %d call sites were seen" % (len(fns), sites)))
    if not res:
        res.append(held(R, "%d call sites in %d functions" % (sites, len(fns)), fns))
    return res


def callee_name(t):
    f = t[1]
    return callee(f[1]) if f[0] == "const" and f[1].get("k") == "fn" else ""


def hidden_state(F):
    if not hasattr(F, "_state"):
        F._state = state.stateful(F, operands, callee_name)
    return F._state


@lint
def no_hidden_state(F, G, P, C):
    """no function's result depends on what earlier calls left behind"""
    R = "no-state-between-calls"
    n = [short(b.path) for b in all_bodies(F)]
    res = []
    for p, (at, names, sure) in sorted(hidden_state(F).items()):
        if sure:
            res.append(broken(R, "%s reads %s" % (short(p), ", ".join(names)), short(p), at,
                              "its result depends on what earlier calls stored there"))
        else:
            res.append(undecided(R, short(p), "a table kept between calls, looked up by everything stored in it"))
    if not res:
        res.append(held(R, "statics and thread-locals of %d bodies" % len(n), n))
    return res


@lint
def no_unsafe(F, G, P, C):
    bad = [s for c, s in F.unsafe if c == "ruler"]
    bad += [b.span for b in F.bodies if b.crate == "ruler" and b.d.get("unsafe")]
    if bad:
        return [broken("no-unsafe", "unsafe code", "", s, "unsafe code can break every other guarantee") for s in bad]
    return [held("no-unsafe", "no unsafe block or function", [short(b.path) for b in F.bodies if b.crate == "ruler" and b.kind == "fn"])]


# ---- error discipline ---------------------------------------------------------------------------
ERR = ("std::io::Error", "serde_json::Error", "serde_json::error::Error")
SWALLOW = ("Result::<T, E>::unwrap_or_default", "Result::<T, E>::unwrap_or")


@lint
def no_io_error_dropped(F, G, P, C):
    R = "no-io-error-dropped"
    res, fns, n = [], set(), 0
    for b in all_bodies(F):
        used = {}
        for bl in b.blocks:
            if bl is None:
                continue
            for pl, rv, _ in bl["s"]:
                for o in operands(rv):
                    if local_of(o) is not None:
                        used.setdefault(local_of(o), []).append(rv[0])
                if pl[1]:
                    used.setdefault(pl[0], []).append("part")
            t = bl["t"]
            if t[0] == "call":
                nm = callee(t[1][1]) if t[1][0] == "const" and t[1][1].get("k") == "fn" else ""
                for a in t[2]:
                    if local_of(a) is not None:
                        used.setdefault(local_of(a), []).append("call " + nm)
            elif t[0] == "switch" and local_of(t[1]) is not None:
                used.setdefault(local_of(t[1]), []).append("switch")
        for i, t, c in calls(b):
            ty = b.locals[t[3][0]][0] if not t[3][1] else ""
            if not (ty.startswith("std::result::Result<") and any(ty.rstrip(">").endswith(e) for e in ERR)):
                continue
            n += 1
            fns.add(short(b.path))
            u = used.get(t[3][0], [])
            lost = None
            if not u and t[3][0] != 0:
                lost = "the result is discarded"
            for x in u:
                if x.startswith("call ") and any(x.endswith(s) for s in SWALLOW):
                    lost = "a failure is replaced by a default"
                if x.startswith("call ") and x.endswith("Result::<T, E>::ok"):
                    for j, t2, c2 in calls(b):
                        if callee(c2).endswith("Result::<T, E>::ok") and any(local_of(a) == t[3][0] for a in t2[2]) \
                                and not used.get(t2[3][0]) and t2[3][0] != 0:
                            lost = "the result is discarded"
            if lost:
                res.append(broken(R, "%s ignores a failure of %s" % (short(b.path), short(callee(c))), short(b.path), t[5], lost))
    if n < 10:
        res.append(undecided(R, "coverage", "only %d fallible I/O calls were seen" % n))
    if not res:
        res.append(held(R, "%d fallible I/O and JSON calls" % n, fns))
    return res


# ---- masking ------------------------------------------------------------------------------------
@lint
def bv_masked(F, G, P, C):
    """every bit-vector value is built from a masked word"""
    R = "masked-construction"
    res, fns, n = [], set(), 0
    for b in all_bodies(F):
        if b.kind == "const":
            continue
        defs = {}
        for bl in b.blocks:
            if bl is None:
                continue
            for pl, rv, _ in bl["s"]:
                if not pl[1]:
                    defs.setdefault(pl[0], []).append(rv)
            t = bl["t"]
            if t[0] == "call" and not t[3][1]:
                defs.setdefault(t[3][0], []).append(["call", t])

        def in_range(o, d=0):
            """True: below 2^N; False: an unreduced word; None: unknown"""
            if d > 12:
                return None
            if o[0] == "const":
                c = o[1]
                if c.get("k") == "int" and str(c.get("v")) == "0":
                    return True
                return None
            pl = o[1]
            fs = [e for e in pl[1] if e[0] == "field"]
            if fs and "BV" in str(fs[-1][-1]):
                return True
            if pl[1]:
                return None
            ds = defs.get(pl[0], [])
            if not ds:
                return False if 0 < pl[0] <= b.argc else None
            rs = [rv_in_range(rv, d + 1) for rv in ds]
            return False if False in rs else (None if None in rs else True)

        def rv_in_range(rv, d):
            if rv[0] == "use":
                return in_range(rv[1], d)
            if rv[0] == "bin" and rv[1].startswith("BitAnd"):
                a, c = in_range(rv[2], d), in_range(rv[3], d)
                return True if True in (a, c) else (False if (a, c) == (False, False) else None)
            if rv[0] == "bin" and rv[1].startswith(("BitOr", "BitXor", "Shr", "Rem", "Div")):
                a, c = in_range(rv[2], d), in_range(rv[3], d)
                if rv[1].startswith(("Shr", "Div")):
                    return a
                return True if a and c else (False if False in (a, c) else None)
            if rv[0] == "bin" and rv[1].startswith(("Add", "Sub", "Mul", "Shl")):
                return False
            if rv[0] == "un":
                return False
            if rv[0] == "call":
                nm = short(callee(rv[1][1][1])) if rv[1][1][0] == "const" else ""
                if nm.split("::")[-1] in ("wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "not", "into",
                                          "wrapping_shl", "overflowing_add", "gen", "from", "wrapping_pow"):
                    return False
                if nm.split("::")[-1] in ("bitand",):
                    rs = [in_range(a, d) for a in rv[1][2]]
                    return True if True in rs else None
                return None
            return None
        for bl in b.blocks:
            if bl is None:
                continue
            for pl, rv, at in bl["s"]:
                if rv[0] == "agg" and "bv::BV" in str(rv[1:3]):
                    n += 1
                    fns.add(short(b.path))
                    for o in rv[-1]:
                        r = in_range(o)
                        if r is False:
                            res.append(broken(R, "%s builds a bit-vector from an unreduced word" % short(b.path), short(b.path), at,
                                              "no masking with the width's all-ones value on this path"))
                        elif r is None:
                            res.append(undecided(R, short(b.path), "origin of the word not recognised"))
    if n < 1:
        res.append(undecided(R, "coverage", "only %d constructions were seen" % n))
    if not res:
        res.append(held(R, "%d constructions" % n, fns))
    return res
