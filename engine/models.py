"""Abstract semantics of the library calls used by the analysed code."""
from terms import *
import terms as TM
import engine as EN
from engine import (MODELS, PUREOK, OPT, RES, ITERS, Inconclusive, assume, contains_atom, lookup)
from cfg import strip_generics, lastseg, short
import re

T_ = TM.T_


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(st, v):
    return [(st, v)]


def pure(*names):
    """uninterpreted function of its arguments"""
    for n in names:
        def f(E, st, c, n=n):
            return ret(st, T_("call", typed(n, c), *[E.freeze(st, a) for a in c.args]))
        MODELS[n] = f


def typed(n, c):
    """arithmetic differs between the integer types; 128 bits is the carrier of the bit-vectors and goes unmarked"""
    if n.startswith("num::"):
        m = re.search(r"<impl ([ui](?:8|16|32|64|128|size))>|^([ui](?:8|16|32|64|128|size))::", (c.path or "").replace("core::num::", ""))
        if m:
            ty = (m.group(1) or m.group(2)).replace("size", "64")
            if ty != "u128":
                return n + "@" + ty
    return n


# ---- transparent -----------------------------------------------------------------------
@model("Clone::clone", "ToOwned::to_owned", "Deref::deref", "AsRef::as_ref", "Borrow::borrow", "Box::new",
       "Arc::new", "Rc::new", "hint::must_use", "slice::to_vec", "Vec::as_slice", "String::as_str", "String::as_bytes",
       "Vec::into_boxed_slice", "slice::into_vec", "Cow::into_owned", "String::into_boxed_str", "str::to_owned",
       "str::to_string", "Option::copied_", "Arc::clone", "Box::leak", "AsMut::as_mut_", "String::from", "str::as_ref",
       "Box::into_inner", "str::as_str", "Arc::as_ref", "Iterator::by_ref_", "Vec::from", "ManuallyDrop::new",
       "slice::as_ref", "str::as_bytes", "Ruleset::clone", "boxed::as_ref", "Vec::into_iter_", "array::as_slice",
       "HashMap::clone", "RecExpr::as_ref", "IndexMap::as_slice", "Box::as_ref", "Vec::shrink_to_fit_",
       "Into::into_", "Id::from", "str::into_string", "Rc::clone", "array::clone", "Cow::from", "str::into", "mem::copy")
def m_id(E, st, c):
    a = c.args[0]
    return ret(st, E.freeze(st, a) if a.ptrs else a)


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Iterator::by_ref", "Vec::as_mut_slice", "Box::as_mut")
def m_idmut(E, st, c):
    return ret(st, c.args[0])


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def m_into(E, st, c):
    a = c.v(st, 0)
    nm = c.name
    if nm == "Into::into":
        # find a local From impl for the target type
        tgt = c.gargs[1] if len(c.gargs) > 1 else ""
        src = c.gargs[0] if c.gargs else ""
        t = lastseg(strip_generics(tgt))
        if t in E.facts.adts:
            for b in E.facts.bodies:
                if b.path.endswith("::from") and lastseg(strip_generics(b.d.get("implof") or "")) == "From":
                    it = b.d.get("implty") or b.path
                    if lastseg(strip_generics(it)) == t and src_match(b.d.get("implof"), src):
                        return E.run_body(st, b, c.args, c.sub("into"))
    if nm.startswith("Try"):
        return ret(st, T_("call", nm, a))
    return ret(st, E.freeze(st, a))


def src_match(implof, src):
    m = re.search(r"From<(.*)>$", implof or "")
    return bool(m) and (lastseg(m.group(1)) == lastseg(src) or m.group(1) == src)


@model("Box::new_uninit")
def m_uninit(E, st, c):
    o = (c.key + "%box", 0)
    return ret(st.set(o, T_("uninit")), T_("ptr", o, ()))


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def m_assume(E, st, c):
    p = c.args[0]
    v = E.val(st, p)
    if p.op == "ptr":
        st = E.drop_obj(st, p.a[0])
    return ret(st, arr_to_seq(v))


def arr_to_seq(v):
    if v.op == "agg" and v.a[0] == "array":
        return mk_seq(T_("empty"), *[mk_gen("push", TRUE, (), x) for x in v.a[4:]])
    return v


@model("vec::from_elem")
def m_from_elem(E, st, c):
    return ret(st, T_("repeat", E.freeze(st, c.args[0]), c.v(st, 1)))


def default_of(E, ty):
    t = ty.strip()
    n = lastseg(strip_generics(t))
    if n in ("Vec", "HashMap", "IndexMap", "HashSet", "String", "BTreeMap", "BTreeSet", "FxHashMap", "FxHashSet",
             "VecDeque", "IndexSet"):
        return EMPTY if n != "String" else tstr("")
    if n in ("usize", "u64", "u32", "i32", "i64", "u8", "u128", "isize"):
        return tint(0)
    if n == "bool":
        return FALSE
    if n == "Option":
        return NONE
    if t == "()":
        return UNIT
    return None


@model("Default::default")
def m_default(E, st, c):
    ty = c.gargs[0] if c.gargs else ""
    d = default_of(E, ty)
    if d is not None:
        return ret(st, d)
    m = re.match(r"^\((.*)\)$", ty)
    n = lastseg(strip_generics(ty))
    for b in E.facts.bodies:
        if b.path.endswith("::default") and lastseg(strip_generics(b.d.get("implof") or "")) == "Default":
            it = re.match(r"^<(.*?) as ", b.path)
            if it and lastseg(strip_generics(it.group(1))) == n:
                if not E.facts.derived(b):
                    return E.run_body(st, b, [], c.sub("def"))
    if n == "EGraph":
        return ret(st, EGNEW)
    if n == "RecExpr":
        return ret(st, EMPTY)
    return ret(st, T_("call", "Default::default:" + n))


EGNEW = T_("egnew")


@model("Vec::new", "HashMap::new", "IndexMap::new", "HashSet::new", "Vec::with_capacity", "HashMap::with_capacity",
       "IndexMap::with_capacity", "BTreeMap::new", "BTreeSet::new", "VecDeque::new", "Map::new", "HashSet::with_capacity",
       "HashMap::with_hasher", "IndexMap::with_hasher", "HashMap::with_capacity_and_hasher", "IndexSet::new",
       "IndexMap::with_capacity_and_hasher", "HashSet::with_hasher", "Map::with_capacity", "HashSet::with_capacity_and_hasher")
def m_empty(E, st, c):
    return ret(st, EMPTY)


@model("String::new", "String::with_capacity")
def m_estr(E, st, c):
    return ret(st, tstr(""))


@model("Vec::reserve", "Vec::shrink_to_fit", "IndexMap::reserve", "HashMap::reserve", "mem::drop", "mem::forget", "io::_print",
       "io::_eprint", "Drop::drop", "String::reserve", "mem::drop", "fmt::_print", "intrinsics::cold_path", "hint::black_box_",
       "HashSet::reserve", "thread::yield_now")
def m_unit(E, st, c):
    return ret(st, UNIT)


@model("io::_print")
def m_print(E, st, c):
    if E.prints:
        st = st.copy()
        st.ev = st.ev + (mk_gen("ev", TRUE, (), T_("call", "print", E.freeze(st, c.args[0]))),)
    return ret(st, UNIT)


# ---- helpers over collections --------------------------------------------------------------
def gens_of(coll):
    """generators appending all elements of coll"""
    if coll.op == "agg" and coll.a[0] == "array":
        return [mk_gen("push", TRUE, (), x) for x in coll.a[4:]]
    if coll.op == "seq" and coll.a[0].op == "empty":
        return list(coll.a[1:])
    if coll.op == "seq":
        return gens_of(coll.a[0]) + list(coll.a[1:])
    b = T_("bv", (coll.bvd if coll.bvd < 500 else 0) + 1)
    return [mk_gen("push", TRUE, (T_("bind", b, EN.canon_dom(T_("iter", coll))),), mk_idx(coll, b))]


def upd(E, st, p, f):
    if p.op != "ptr":
        return st
    return E.store(st, p, f(E.load(st, p)))


def frz(E, st, v):
    return E.freeze(st, v)


def to_iter(E, st, v):
    """iterator term of a value"""
    v = E.val(st, v)
    if v.op in ITERS:
        return v
    if v.op == "agg" and v.a[0] == "adt" and v.a[1] == "Range":
        return T_("iter", T_("range", v.a[4], v.a[5]))
    if v.op == "agg" and v.a[0] == "adt" and v.a[1] == "RangeInclusive":
        return T_("iter", T_("range", v.a[4], mk_bin("Add", v.a[5], tint(1))))
    if v.op == "call" and v.a[0] == "RangeInclusive::new":
        return T_("iter", T_("range", v.a[1], mk_bin("Add", v.a[2], tint(1))))
    if v.op == "agg" and v.a[0] == "adt" and v.a[1] == "RangeFrom":
        return T_("iter", T_("rangefrom", v.a[4]))
    kv = known_variant(v)
    if kv == "None":
        return T_("iter", EMPTY)
    if kv == "Some":
        return T_("iter", agg("array", "", "", (), (mk_field(v, "0", "Some"),)))
    if v.op == "agg" and v.a[0] == "adt" and v.a[1] == "Ruleset":
        return T_("iter", T_("entries", v.a[4]))
    return T_("iter", v)


def slice_of(v, lo, hi):
    if hi is None:
        if lo.op == "int" and lo.a[0] == 0:
            return v
        return T_("slicefrom", v, lo)
    return T_("slicerange", v, lo, hi)


@model("Index::index")
def m_index(E, st, c):
    v, i = c.v(st, 0), c.v(st, 1)
    if i.op == "agg" and i.a[0] == "adt":
        if i.a[1] == "RangeFrom":
            return ret(st, slice_of(v, i.a[4], None))
        if i.a[1] == "Range":
            return ret(st, slice_of(v, i.a[4], i.a[5]))
        if i.a[1] == "RangeTo":
            return ret(st, slice_of(v, tint(0), i.a[4]))
    if i.op == "rangefull":
        return ret(st, v)
    r = c.res or ""
    if "EGraph<" in r:
        return ret(st, T_("call", "EGraph[]", E.freeze(st, v), i))
    if "Subst" in r:
        return ret(st, T_("call", "Subst[]", v, i))
    if "Map<" in r:
        return ret(st, mget(v, i))
    return ret(st, mk_idx(v, i))


@model("IndexMut::index_mut", "slice::index_mut")
def m_index_mut(E, st, c):
    p, i = c.args[0], c.v(st, 1)
    r = c.res or ""
    if p.op != "ptr":
        return ret(st, T_("call", "IndexMut", E.val(st, p), i))
    if "EGraph<" in r:
        return ret(st, T_("ptr", p.a[0], p.a[1] + (("at", "EGraph[]", i),)))
    if "Map<" in r:
        return ret(st, T_("ptr", p.a[0], p.a[1] + (("at", "map", i),)))
    return ret(st, T_("ptr", p.a[0], p.a[1] + (("i", i),)))


def haskey(m, k):
    if m.op == "seq":
        base = m.a[0]
        gs = list(m.a[1:])
        while gs:
            g = gs[-1]
            if g.a[0] in ("ins", "insabsent", "ins1", "grp") and g.a[1] is TRUE and not g.a[2] and g.a[3] is k:
                return TRUE
            if g.a[0] == "del" and g.a[1] is TRUE and not g.a[2]:
                if g.a[3] is k:
                    return FALSE
            break
        if base.op == "empty" and not gs:
            return FALSE
    return T_("haskey", m, k)


def mget(m, k):
    if m.op == "seq" and len(m.a) > 1:
        g = m.a[-1]
        if g.a[0] == "ins" and g.a[1] is TRUE and not g.a[2] and g.a[3] is k:
            return g.a[4]
    return T_("mget", m, k)


EN.mget = mget

MAPS = ("HashMap", "IndexMap", "BTreeMap", "Map")
SETS = ("HashSet", "BTreeSet", "IndexSet")


def fork(E, st, atom, yes, no):
    out = []
    for s in assume(st, atom, True):
        out.append((s, yes(s)))
    for s in assume(st, atom, False):
        out.append((s, no(s)))
    return out


@model(*[m + "::get" for m in MAPS])
def m_mapget(E, st, c):
    m, k = E.freeze(st, c.args[0]), E.freeze(st, c.args[1])
    return fork(E, st, haskey(m, k), lambda s: some(mget(m, k)), lambda s: NONE)


@model(*[m + "::get_mut" for m in MAPS])
def m_mapgetmut(E, st, c):
    p, k = c.args[0], E.freeze(st, c.args[1])
    m = E.freeze(st, p)
    if p.op != "ptr":
        return None
    return fork(E, st, haskey(m, k), lambda s: some(T_("ptr", p.a[0], p.a[1] + (("at", "map", k),))), lambda s: NONE)


@model("slice::get", "Vec::get")
def m_vecget(E, st, c):
    m, k = E.freeze(st, c.args[0]), E.freeze(st, c.args[1])
    return fork(E, st, mk_lt(k, mk_len(m)), lambda s: some(mk_idx(m, k)), lambda s: NONE)


@model(*[m + "::contains_key" for m in MAPS])
def m_haskey(E, st, c):
    return ret(st, haskey(E.freeze(st, c.args[0]), E.freeze(st, c.args[1])))


@model(*[m + "::contains" for m in SETS])
def m_hasset(E, st, c):
    return ret(st, haskey(E.freeze(st, c.args[0]), E.freeze(st, c.args[1])))


@model("slice::contains", "Vec::contains", "VecDeque::contains")
def m_contains(E, st, c):
    return ret(st, contains_atom(E.freeze(st, c.args[0]), E.freeze(st, c.args[1])))


@model("str::contains", "str::starts_with", "str::ends_with", "str::split_once", "str::strip_prefix", "str::repeat",
       "str::trim", "str::split", "str::replace", "str::trim_start_matches", "str::chars", "str::find", "str::bytes",
       "str::strip_suffix", "str::splitn", "str::rsplit_once", "str::lines", "str::to_lowercase", "str::split_whitespace")
def m_strfn(E, st, c):
    args = [E.freeze(st, a) for a in c.args]
    args = [tstr(a.a[0]) if a.op == "char" else a for a in args]
    r = T_("call", c.name, *args)
    return ret(st, r)


def plain_fields(t):
    return t.op == "seq" and all(x.a[0] == "ins" and x.a[1] is TRUE and not x.a[2] and x.a[3].op == "str" for x in t.a[1:])


@model(*[m + "::insert" for m in MAPS])
def m_mapinsert(E, st, c):
    p, k, v = c.args[0], E.freeze(st, c.args[1]), E.freeze(st, c.args[2])
    if p.op != "ptr":
        return None
    old = E.load(st, p)
    g = mk_gen("ins", TRUE, (), k, v)
    if c.name == "Map::insert" and plain_fields(old) and k.op == "str" and all(x.a[3] is not k for x in old.a[1:]):
        # the members of a JSON object are unordered
        st2 = E.store(st, p, mk_seq(old.a[0], *sorted(old.a[1:] + (g,), key=lambda x: x.a[3].a[0])))
    else:
        st2 = E.store(st, p, mk_seq(old, g))
    if c.unused:
        return ret(st2, UNIT)
    hk = haskey(old, k)
    return fork(E, st2, hk, lambda s: some(mget(old, k)), lambda s: NONE)


@model(*[m + "::insert" for m in SETS])
def m_setinsert(E, st, c):
    p, k = c.args[0], E.freeze(st, c.args[1])
    if p.op != "ptr":
        return None
    old = E.load(st, p)
    return ret(E.store(st, p, mk_seq(old, mk_gen("ins1", TRUE, (), k))), mk_not(haskey(old, k)))


@model(*[m + "::remove" for m in MAPS + SETS], "IndexMap::shift_remove", "IndexMap::swap_remove")
def m_mapremove(E, st, c):
    p, k = c.args[0], E.freeze(st, c.args[1])
    if p.op != "ptr":
        return None
    old = E.load(st, p)
    s = E.store(st, p, mk_seq(old, mk_gen("del", TRUE, (), k)))
    if c.unused:
        return ret(s, UNIT)
    return fork(E, s, haskey(old, k), lambda x: some(mget(old, k)), lambda x: NONE)


@model(*[m + "::entry" for m in MAPS])
def m_entry(E, st, c):
    return ret(st, T_("entry", c.args[0], E.freeze(st, c.args[1])))


def slot(E, st, ent, d):
    p, k = ent.a
    if p.op != "ptr":
        raise Inconclusive("entry on shared map")
    old = E.load(st, p)
    if not (old.op == "seq" and len(old.a) > 1 and haskey(old, k) is TRUE):
        st = E.store(st, p, mk_seq(old, mk_gen("insabsent", TRUE, (), k, d)))
    return ret(st, T_("ptr", p.a[0], p.a[1] + (("slot", k, d),)))


@model("Entry::or_insert_with", "Entry::or_insert_with_key")
def m_or_insert_with(E, st, c):
    ent = c.args[0]
    if ent.op != "entry":
        return None
    ds = E.call_value(st, c.args[1], [], E.subcall(c, "oi"))
    if len(ds) == 1 and ds[0][0].conj == st.conj:
        return slot(E, ds[0][0], ent, E.freeze(*ds[0]))
    # the closure only runs where the key is absent
    p, k = ent.a
    if p.op != "ptr":
        raise Inconclusive("entry on shared map")
    at = T_("ptr", p.a[0], p.a[1] + (("at", "map", k),))
    hk = haskey(E.load(st, p), k)
    out = [(s, at) for s in assume(st, hk, True)]
    for s0 in assume(st, hk, False):
        for s, d in E.call_value(s0, c.args[1], [], E.subcall(c, "oi")):
            out.append((E.store(s, p, mk_seq(E.load(s, p), mk_gen("ins", TRUE, (), k, E.freeze(s, d)))), at))
    return out


@model("Entry::or_insert")
def m_or_insert(E, st, c):
    ent = c.args[0]
    if ent.op != "entry":
        return None
    return slot(E, st, ent, E.freeze(st, c.args[1]))


@model("Entry::or_default")
def m_or_default(E, st, c):
    ent = c.args[0]
    if ent.op != "entry":
        return None
    d = None
    for g in c.gargs:
        d = default_of(E, g)
        if d is not None and g.startswith(("std::vec", "std::coll", "indexmap", "std::string")):
            break
    # value type is the second generic argument of the map
    gs = [g for g in c.gargs if not g.startswith("'")]
    if len(gs) > 1:
        d = default_of(E, gs[1])
    if d is None:
        d = T_("call", "Default::default:" + (lastseg(strip_generics(gs[1])) if len(gs) > 1 else "?"))
    return slot(E, st, ent, d)


# ---- vectors -----------------------------------------------------------------------------
@model("Vec::push", "VecDeque::push_back")
def m_push(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    x = E.freeze(st, c.args[1])
    return ret(upd(E, st, p, lambda v: mk_seq(v, mk_gen("push", TRUE, (), x))), UNIT)


@model("RecExpr::add")
def m_recadd(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    x = E.freeze(st, c.args[1])
    n = mk_len(E.load(st, p))
    return ret(upd(E, st, p, lambda v: mk_seq(v, mk_gen("push", TRUE, (), x))), n)


@model("String::push_str", "String::push")
def m_pushstr(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    x = E.freeze(st, c.args[1])
    return ret(upd(E, st, p, lambda v: fmt_cat(v, x)), UNIT)


@model("Add::add", "AddAssign::add_assign", "Sub::sub", "Mul::mul", "SubAssign::sub_assign", "BitOr::bitor", "BitAnd::bitand",
       "BitXor::bitxor", "Shl::shl", "Shr::shr", "Neg::neg", "Div::div", "Rem::rem", "BitAndAssign::bitand_assign",
       "BitOrAssign::bitor_assign", "MulAssign::mul_assign")
def m_arith(E, st, c):
    op = c.name.split("::")[0]
    ty = c.gargs[0] if c.gargs else ""
    if "String" in ty and op == "Add":
        return ret(st, fmt_cat(E.freeze(st, c.args[0]), E.freeze(st, c.args[1])))
    if op.endswith("Assign"):
        p = c.args[0]
        if p.op != "ptr":
            return None
        y = E.freeze(st, c.args[1])
        if "String" in ty:
            return ret(upd(E, st, p, lambda v: fmt_cat(v, y)), UNIT)
        o = op[:-6]
        return ret(upd(E, st, p, lambda v: mk_bin(o, v, y)), UNIT)
    a = [E.freeze(st, x) for x in c.args]
    if len(a) == 1:
        return ret(st, T_("un", op, a[0]))
    return ret(st, mk_bin(op, a[0], a[1]))


@model("Not::not")
def m_not(E, st, c):
    a = E.freeze(st, c.args[0])
    r = (c.res or "") + " " + " ".join(c.gargs)
    if "z3" in r:
        return ret(st, T_("call", "Bool::not", a))
    if "bool" in r:
        return ret(st, unf(f_not(a)) if a.op == "ite" else mk_not(a))
    return ret(st, T_("un", "Not", a))


@model("Extend::extend", "Vec::append", "Vec::extend_from_slice", "IndexMap::extend", "HashMap::extend", "Vec::extend", "HashSet::extend")
def m_extend(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    ty = (c.res or "") + (c.gargs[0] if c.gargs else "") + c.path
    src = c.args[1]
    it = to_iter(E, st, src)
    if it.op == "iter" and len(c.gargs) > 2 and "Map<" in c.gargs[2] and it.a[0].op not in ("entries", "values", "keys"):
        it = T_("iter", T_("entries", it.a[0]))
    kind = "ins" if "Map<" in ty or "Map::" in ty else ("ins1" if "Set<" in ty or "Set::" in ty else "push")
    st, m = E.materialize(st, it, c.sub("ext"), c)
    if c.name == "Vec::append" and src.op == "ptr":
        st = E.store(st, src, EMPTY)
    if kind == "push":
        gs = gens_of(m)
    else:
        gs = recast(gens_of(m), kind)
    if kind == "ins" and m.op == "entries":
        # extend by a whole map
        b = T_("bv", (m.bvd if m.bvd < 500 else 0) + 1)
        gs = [mk_gen("ins", TRUE, (T_("bind", b, T_("iter", m)),), T_("mkey", m.a[0], b), T_("mval", m.a[0], b))]
    return ret(upd(E, st, p, lambda v: mk_seq(v, *gs)), UNIT)


def recast(gs, kind):
    out = []
    for g in gs:
        if kind == "ins":
            x = g.a[3]
            out.append(mk_gen("ins", g.a[1], g.a[2], mk_field(x, "0"), mk_field(x, "1")))
        else:
            out.append(mk_gen(kind, g.a[1], g.a[2], g.a[3]))
    return out


def mk_last(v):
    if v.op == "agg" and v.a[0] == "array" and len(v.a) > 4:
        return v.a[-1]
    if v.op == "seq" and len(v.a) > 1:
        g = v.a[-1]
        if g.a[0] == "push" and g.a[1] is TRUE and not g.a[2]:
            return g.a[3]
    return T_("last", v)


def mk_butlast(v):
    if v.op == "seq" and len(v.a) > 1:
        g = v.a[-1]
        if g.a[0] == "push" and g.a[1] is TRUE and not g.a[2]:
            r = v.a[:-1]
            return T_("seq", *r)
    return T_("butlast", v)


def nonempty(v):
    return unf(f_not(is_empty(v)))


def is_empty(v):
    return mk_eq(mk_len(v), tint(0))


@model("slice::last", "Vec::last")
def m_last(E, st, c):
    v = E.freeze(st, c.args[0])
    return fork(E, st, is_empty(v), lambda s: NONE, lambda s: some(mk_last(v)))


@model("slice::first", "Vec::first")
def m_first(E, st, c):
    v = E.freeze(st, c.args[0])
    return fork(E, st, is_empty(v), lambda s: NONE, lambda s: some(mk_idx(v, tint(0))))


@model("slice::last_mut")
def m_lastmut(E, st, c):
    p = c.args[0]
    v = E.freeze(st, p)
    return fork(E, st, is_empty(v), lambda s: NONE,
                lambda s: some(T_("ptr", p.a[0], p.a[1] + (("i", mk_bin("Sub", mk_len(v), tint(1))),))))


@model("Vec::pop", "IndexMap::pop", "VecDeque::pop_back")
def m_pop(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    v = E.load(st, p)
    out = []
    for s in assume(st, is_empty(v), True):
        out.append((s, NONE))
    for s in assume(st, is_empty(v), False):
        x = mk_last(v)
        if c.name == "IndexMap::pop":
            x = tup(T_("lastkey", v), T_("lastval", v))
        out.append((E.store(s, p, mk_butlast(v)), some(x)))
    return out


@model("Vec::remove", "String::remove")
def m_vremove(E, st, c):
    p, i = c.args[0], c.v(st, 1)
    if p.op != "ptr":
        return None
    v = E.load(st, p)
    nv = T_("slicefrom", v, tint(1)) if i is tint(0) else T_("removed", v, i)
    if v.op == "slicefrom" and i is tint(0):
        nv = T_("slicefrom", v.a[0], mk_bin("Add", v.a[1], tint(1)))
    return ret(E.store(st, p, nv), mk_idx(v, i))


@model("Vec::clear", "IndexMap::clear", "HashMap::clear", "HashSet::clear")
def m_clear(E, st, c):
    return ret(upd(E, st, c.args[0], lambda v: EMPTY), UNIT)


@model("Vec::truncate", "Vec::insert", "Vec::swap_remove", "slice::reverse", "slice::swap", "Vec::resize", "Vec::drain",
       "Vec::split_off", "Vec::dedup_by_key", "IndexMap::sort_keys", "IndexMap::drain", "HashMap::drain", "IndexMap::truncate")
def m_mutopaque(E, st, c):
    if c.name == "slice::reverse":
        return ret(upd(E, st, c.args[0], lambda v: T_("rev", v)), UNIT)
    if c.name in ("Vec::drain", "IndexMap::drain", "HashMap::drain") and (len(c.args) == 1 or c.v(st, 1).op == "rangefull"):
        v = E.load(st, c.args[0])
        it = T_("iter", T_("entries", v) if "Map" in c.name else v)
        return ret(upd(E, st, c.args[0], lambda v: EMPTY), it)
    if c.name == "Vec::insert" and c.v(st, 1) is tint(0):
        x = E.freeze(st, c.args[2])
        return ret(upd(E, st, c.args[0], lambda v: mk_seq(mk_seq(T_("empty"), mk_gen("push", TRUE, (), x)), *gens_of(v))), UNIT)
    return E.opaque_call(st, c)


@model("slice::sort", "slice::sort_unstable")
def m_sort(E, st, c):
    return ret(upd(E, st, c.args[0], lambda v: T_("sorted", v, tstr("natural"))), UNIT)


@model("Vec::dedup")
def m_dedup(E, st, c):
    return ret(upd(E, st, c.args[0], lambda v: T_("dedup", v)), UNIT)


@model("IndexMap::sort_by", "slice::sort_by", "IndexMap::sort_unstable_by", "slice::sort_unstable_by", "slice::sort_by_key",
       "slice::sort_unstable_by_key", "slice::sort_by_cached_key", "IndexMap::sort_by_cached_key")
def m_sortby(E, st, c):
    p = c.args[0]
    n = {"IndexMap": 4, "slice": 2}[c.name.split("::")[0]]
    if "key" in c.name:
        n //= 2
    ps = [T_("sortarg", i) for i in range(n)]
    out = []
    cases = {}
    for s, v in E.call_value(st, c.args[1], ps, E.subcall(c, "cmp")):
        base = set(st.conj.items())
        g = f_conj([(t, x) for t, x in s.conj.items() if (t, x) not in base])
        v = E.freeze(s, v)
        cases[v] = f_or(cases.get(v, FALSE), g)
    items = sorted(cases.items(), key=lambda kv: kv[0].id)
    if len(items) == 1:
        lam = items[0][0]
    else:
        lam = T_("cases", *[T_("case", g, v) for v, g in items])
    key = "sortkey" if "key" in c.name else "sortcmp"
    return ret(upd(E, st, p, lambda v: T_("sorted", v, T_(key, lam))), UNIT)


@model("Vec::retain", "IndexMap::retain", "HashMap::retain", "HashSet::retain", "Vec::retain_mut")
def m_retain(E, st, c):
    p = c.args[0]
    v = E.load(st, p)
    ismap = "Map" in c.name
    src = T_("iter", T_("entries", v) if ismap else v)
    o = (c.key + "%ret", 0)
    st = st.set(o, EMPTY)

    def step(s, x):
        out = []
        args = [mk_field(x, "0"), mk_field(x, "1")] if ismap else [x]
        for s2, b in E.call_value(s, c.args[1], args, E.subcall(c, "rp")):
            for s3 in assume(s2, E.val(s2, b), True):
                q = T_("ptr", o, ())
                g = mk_gen("ins", TRUE, (), *args) if ismap else mk_gen("ins1" if "Set" in c.name else "push", TRUE, (), x)
                out.append((E.store(s3, q, mk_seq(E.load(s3, q), g)), "cont", None))
            for s3 in assume(s2, E.val(s2, b), False):
                out.append((s3, "cont", None))
        return out
    rs = E.consume(st, src, c, step, "ret")
    out = []
    for s, _ in rs:
        nv = s.env[o]
        s = E.store(s, p, nv)
        out.append((E.drop_obj(s, o), UNIT))
    return out


@model("Vec::len", "slice::len", "IndexMap::len", "HashMap::len", "HashSet::len", "str::len", "String::len", "VecDeque::len",
       "BTreeMap::len", "BTreeSet::len", "ExactSizeIterator::len", "Map::len")
def m_len(E, st, c):
    v = E.freeze(st, c.args[0])
    if v.op == "iter":
        v = v.a[0]
    return ret(st, mk_len(v))


@model("Vec::is_empty", "slice::is_empty", "IndexMap::is_empty", "HashMap::is_empty", "HashSet::is_empty", "str::is_empty",
       "String::is_empty", "VecDeque::is_empty", "Map::is_empty")
def m_isempty(E, st, c):
    return ret(st, is_empty(E.freeze(st, c.args[0])))


@model("IndexMap::values", "HashMap::values", "BTreeMap::values", "IndexMap::into_values", "HashMap::into_values", "Map::values")
def m_values(E, st, c):
    return ret(st, T_("iter", T_("values", E.freeze(st, c.args[0]))))


@model("IndexMap::keys", "HashMap::keys", "BTreeMap::keys", "IndexMap::into_keys", "HashMap::into_keys")
def m_keys(E, st, c):
    return ret(st, T_("iter", T_("keys", E.freeze(st, c.args[0]))))


@model("IndexMap::iter", "HashMap::iter", "BTreeMap::iter")
def m_mapiter(E, st, c):
    return ret(st, T_("iter", T_("entries", E.freeze(st, c.args[0]))))


@model("slice::iter", "Vec::iter", "HashSet::iter", "VecDeque::iter", "Option::iter", "array::iter", "Vec::into_iter", "Set::iter",
       "BTreeSet::iter", "array::into_iter")
def m_iter(E, st, c):
    return ret(st, to_iter(E, st, E.freeze(st, c.args[0])))


@model("slice::iter_mut", "IndexMap::iter_mut", "IndexMap::values_mut", "HashMap::values_mut")
def m_itermut(E, st, c):
    p = c.args[0]
    if p.op != "ptr" or "Map" in c.name:
        return E.opaque_call(st, c)
    return ret(st, T_("itermut", p))


@model("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter", "ParallelIterator::into_par_iter",
       "IntoParallelRefIterator::par_iter")
def m_intoiter(E, st, c):
    a = c.args[0]
    ty = (c.res or "") + " " + " ".join(c.gargs)
    if a.op in ITERS or a.op == "itermut":
        return ret(st, a)
    v = E.freeze(st, a)
    if v.op in ITERS:
        return ret(st, v)
    if "Map<" in ty and v.op not in ("entries", "values", "keys"):
        return ret(st, T_("iter", T_("entries", v)))
    if a.op == "ptr" and "mut" in ty:
        return ret(st, T_("itermut", a))
    return ret(st, to_iter(E, st, v))


@model("RangeInclusive::new")
def m_rangeinc(E, st, c):
    return ret(st, agg("adt", "Range", "Range", ("start", "end"), (c.v(st, 0), mk_bin("Add", c.v(st, 1), tint(1)))))


# ---- iterator adaptors -----------------------------------------------------------------------
def adaptor(name, op, nargs):
    @model("Iterator::" + name, "ParallelIterator::" + name, "Itertools::" + name)
    def f(E, st, c):
        it = to_iter(E, st, c.args[0])
        if it.op == "itermut":
            return None
        args = list(c.args[1:])
        if nargs == "coll":
            args = [to_iter(E, st, args[0])]
        if op == "izip" and args[0] is it and it.op == "iter":
            pass
        return ret(st, T_(op, it, *args))
    return f


adaptor("map", "imap", "fn")
adaptor("filter", "ifilter", "fn")
adaptor("filter_map", "ifmap", "fn")
adaptor("enumerate", "ienum", 0)
adaptor("zip", "izip", "coll")
adaptor("rev", "irev", 0)
adaptor("chain", "ichain", "coll")
adaptor("flat_map", "iflatmap", "fn")


@model("Iterator::flatten")
def m_flatten(E, st, c):
    return ret(st, T_("iflatmap", to_iter(E, st, c.args[0]), UNIT))


@model("Iterator::take")
def m_take(E, st, c):
    return ret(st, T_("itake", to_iter(E, st, c.args[0]), c.v(st, 1)))


@model("Iterator::cloned", "Iterator::copied", "Iterator::into_iter", "Iterator::fuse", "Iterator::peekable_", "Itertools::sorted_")
def m_iterid(E, st, c):
    return ret(st, to_iter(E, st, c.args[0]))


@model("Iterator::skip")
def m_skip(E, st, c):
    it = to_iter(E, st, c.args[0])
    if it.op == "iter":
        return ret(st, T_("iter", slice_of(it.a[0], c.v(st, 1), None)))
    st2, m = E.materialize(st, it, c.sub("sk"), c)
    return ret(st2, T_("iter", slice_of(m, c.v(st, 1), None)))


@model("Itertools::multi_cartesian_product", "Itertools::cartesian_product", "Itertools::unique", "Itertools::sorted",
       "Itertools::dedup", "Itertools::tuple_combinations", "Itertools::combinations", "Iterator::skip_while", "Iterator::take_while",
       "Iterator::step_by", "Iterator::windows", "slice::windows", "slice::chunks", "slice::concat", "slice::join", "Itertools::join")
def m_iteropaque(E, st, c):
    args = []
    for i, a in enumerate(c.args):
        fv = E.val(st, a)
        if fv.op in ITERS:
            st, m = E.materialize(st, fv, c.sub("m%d" % i), c)
            args.append(m)
        elif fv.op == "agg" and fv.a[0] == "closure":
            st, lam = E.lambda_of(st, a, c, i)
            args.append(lam)
        else:
            args.append(E.freeze(st, a))
    r = T_("call", c.name, *args)
    return ret(st, r if c.name in ("slice::concat", "slice::join", "Itertools::join") else T_("iter", r))


@model("BufRead::lines", "EGraph::classes", "EClass::iter", "EClass::parents", "EGraph::classes_mut", "Language::children_")
def m_iter_call(E, st, c):
    return ret(st, T_("iter", T_("call", c.name, *[E.freeze(st, a) for a in c.args])))


# ---- iterator consumers --------------------------------------------------------------------------
def done_some(E, st, L, it, c):
    out = []
    done = T_("done", L.id)
    x = st.copy()
    x.conj[done] = True
    out.append((x, NONE))
    for s2, v in E.elems(st, it, L, E.subcall(c, "nx")):
        out.append((s2, some(v)))
    return out


@model("Iterator::next")
def m_next(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        it = p
    else:
        it = E.load(st, p)
    if it.op == "ptr":
        p = it
        it = E.load(st, p)
    if it.op == "agg" and it.a[1] == "Range":
        it = to_iter(E, st, it)
    if st.loops and p.op == "ptr":
        L = st.loops[-1]
        if p.a[0] in L.entry_env and (L.iterobj is None or L.iterobj == p.a):
            if L.header_next(c):
                L.iterobj = p.a
                L.itval = it
                if it.op == "itermut":
                    return next_mut(E, st, L, it, c)
                if it.op not in ITERS:
                    it = T_("iter", it)
                return done_some(E, st, L, it, c)
    if it.op == "iter" and p.op == "ptr":
        coll = it.a[0]
        out = []
        for s in assume(st, is_empty(coll), True):
            out.append((s, NONE))
        for s in assume(st, is_empty(coll), False):
            s2 = E.store(s, p, T_("iter", slice_of(coll, tint(1), None)))
            out.append((s2, some(mk_idx(coll, tint(0)))))
        return out
    return E.opaque_call(st, c)


def next_mut(E, st, L, it, c):
    p = it.a[0]
    coll = E.load(st, p)
    out = []
    done = T_("done", L.id)
    x = st.copy()
    x.conj[done] = True
    out.append((x, NONE))
    iv = L.iv(0)
    if not any(b[0] is iv for b in L.binds):
        L.binds.append((iv, T_("iter", T_("mutdom", coll))))
    out.append((st, some(T_("ptr", p.a[0], p.a[1] + (("i", iv),)))))
    return out


def lamcall(E, s, f, args, c, tag):
    return E.call_value(s, f, args, E.subcall(c, tag))


def anyall(E, st, c, want):
    it = to_iter(E, st, c.args[0])

    def step(s, x):
        out = []
        for s2, b in lamcall(E, s, c.args[1], [x], c, "p"):
            b = E.val(s2, b)
            out += [(s3, "brk", None) for s3 in assume(s2, b, want)]
            out += [(s3, "cont", None) for s3 in assume(s2, b, not want)]
        return out
    out = []
    for s, (k, v) in E.consume(st, it, c, step, "aa"):
        out.append((s, tbool(want) if k == "brk" else tbool(not want)))
    return out


@model("Iterator::any", "ParallelIterator::any")
def m_any(E, st, c):
    return anyall(E, st, c, True)


@model("Iterator::all", "ParallelIterator::all")
def m_all(E, st, c):
    return anyall(E, st, c, False)


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(E, st, c):
    it = to_iter(E, st, c.args[0])
    if it.op == "itermut":
        return None

    def step(s, x):
        return [(s2, "cont", None) for s2, _ in lamcall(E, s, c.args[1], [x], c, "fe")]
    return [(s, UNIT) for s, _ in E.consume(st, it, c, step, "fe")]


@model("Iterator::find", "Iterator::find_map", "Iterator::position")
def m_find(E, st, c):
    it = to_iter(E, st, c.args[0])
    n = [0]

    def step(s, x):
        out = []
        for s2, b in lamcall(E, s, c.args[1], [x], c, "p"):
            b = E.val(s2, b)
            if c.name.endswith("find_map"):
                out += [(s3, "brk", mk_field(b, "0", "Some")) for s3 in assume(s2, mk_is(b, "Some", OPT), True)]
                out += [(s3, "cont", None) for s3 in assume(s2, mk_is(b, "Some", OPT), False)]
                continue
            r = x
            if c.name.endswith("position"):
                r = s2.loops[-1].iv(0)
            out += [(s3, "brk", r) for s3 in assume(s2, b, True)]
            out += [(s3, "cont", None) for s3 in assume(s2, b, False)]
        return out
    return [(s, some(v) if k == "brk" else NONE) for s, (k, v) in E.consume(st, it, c, step, "fd")]


def do_fold(E, st, c, it, init, f, tag="fold"):
    o = (c.key + "%" + tag, 0)
    st = st.set(o, E.freeze(st, init) if init.ptrs else init)

    def step(s, x):
        out = []
        for s2, v in f(s, s.env[o], x):
            s3 = s2.copy()
            s3.env[o] = v
            out.append((s3, "cont", None))
        return out
    out = []
    for s, _ in E.consume(st, it, c, step, tag):
        v = s.env[o]
        out.append((E.drop_obj(s, o), v))
    return out


@model("Iterator::fold")
def m_fold(E, st, c):
    it = to_iter(E, st, c.args[0])
    return do_fold(E, st, c, it, c.args[1], lambda s, a, x: lamcall(E, s, c.args[2], [a, x], c, "ff"))


@model("Language::fold")
def m_lfold(E, st, c):
    it = T_("iter", T_("call", "children", E.freeze(st, c.args[0])))
    return do_fold(E, st, c, it, c.args[1], lambda s, a, x: lamcall(E, s, c.args[2], [a, x], c, "ff"))


@model("Language::children")
def m_children(E, st, c):
    return ret(st, T_("call", "children", E.freeze(st, c.args[0])))


@model("Language::is_leaf")
def m_isleaf(E, st, c):
    return ret(st, is_empty(T_("call", "children", E.freeze(st, c.args[0]))))


@model("Language::len")
def m_llen(E, st, c):
    return ret(st, mk_len(T_("call", "children", E.freeze(st, c.args[0]))))


@model("Language::for_each")
def m_lforeach(E, st, c):
    it = T_("iter", T_("call", "children", E.freeze(st, c.args[0])))

    def step(s, x):
        return [(s2, "cont", None) for s2, _ in lamcall(E, s, c.args[1], [x], c, "fe")]
    return [(s, UNIT) for s, _ in E.consume(st, it, c, step, "lfe")]


@model("Language::map_children")
def m_mapch(E, st, c):
    st, lam = E.lambda_of(st, c.args[1], c, 1) if E.val(st, c.args[1]).op == "agg" else (st, E.freeze(st, c.args[1]))
    return ret(st, T_("call", "map_children", E.freeze(st, c.args[0]), lam))


@model("Language::build_recexpr")
def m_build(E, st, c):
    st, lam = E.lambda_of(st, c.args[1], c, 1)
    return ret(st, T_("call", "build_recexpr", E.freeze(st, c.args[0]), lam))


@model("Iterator::sum", "Iterator::count", "ParallelIterator::count", "ParallelIterator::sum")
def m_sum(E, st, c):
    it = to_iter(E, st, c.args[0])
    if c.name.endswith("count") and it.op == "iter":
        return ret(st, mk_len(it.a[0]))
    if c.name.endswith("count"):
        return do_fold(E, st, c, it, tint(0), lambda s, a, x: [(s, mk_bin("Add", a, tint(1)))], "cnt")
    return do_fold(E, st, c, it, tint(0), lambda s, a, x: [(s, mk_bin("Add", a, E.freeze(s, x)))], "sum")


@model("Iterator::max", "Iterator::min", "Iterator::last")
def m_max(E, st, c):
    it = to_iter(E, st, c.args[0])
    st, m = E.materialize(st, it, c.sub("mx"), c)
    return fork(E, st, is_empty(m), lambda s: NONE, lambda s: some(T_("call", c.name, m) if not c.name.endswith("last") else mk_last(m)))


@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter", "Itertools::collect_vec")
def m_collect(E, st, c):
    it = to_iter(E, st, c.args[0])
    if it.op == "itermut":
        return None
    gs = [g for g in c.gargs if not g.startswith("'")]
    tgt = gs[-1] if gs else "Vec"
    if c.name.startswith("FromIterator"):
        tgt = gs[0] if gs else "Vec"
    if c.name.endswith("collect_vec"):
        tgt = "Vec"
    n = lastseg(strip_generics(tgt))
    if n in ("Result", "Option"):
        return collect_try(E, st, c, it, n)
    st, m = E.materialize(st, it, c.sub("col"), c)
    if n in ("HashMap", "IndexMap", "BTreeMap", "FxHashMap"):
        if m.op == "entries":
            return ret(st, m.a[0])
        return ret(st, mk_seq(T_("empty"), *recast(gens_of(m), "ins")))
    if n in ("HashSet", "BTreeSet", "FxHashSet", "IndexSet"):
        return ret(st, mk_seq(T_("empty"), *recast(gens_of(m), "ins1")))
    if n == "String":
        return ret(st, T_("concat", m))
    return ret(st, m)


def collect_try(E, st, c, it, n):
    o = (c.key + "%try", 0)
    st = st.set(o, EMPTY)
    good = "Ok" if n == "Result" else "Some"
    vs = RES if n == "Result" else OPT

    def step(s, x):
        out = []
        x = E.val(s, x)
        for s2 in assume(s, mk_is(x, good, vs), True):
            p = T_("ptr", o, ())
            out.append((E.store(s2, p, mk_seq(E.load(s2, p), mk_gen("push", TRUE, (), mk_field(x, "0", good)))), "cont", None))
        for s2 in assume(s, mk_is(x, good, vs), False):
            out.append((s2, "brk", x))
        return out
    out = []
    for s, (k, v) in E.consume(st, it, c, step, "try"):
        m = s.env[o]
        s = E.drop_obj(s, o)
        if k == "brk":
            out.append((s, v if n == "Result" else NONE))
        else:
            out.append((s, ok(m) if n == "Result" else some(m)))
    return out


@model("Iterator::partition", "ParallelIterator::partition")
def m_partition(E, st, c):
    it = to_iter(E, st, c.args[0])
    oy, on = (c.key + "%y", 0), (c.key + "%n", 0)
    st = st.set(oy, EMPTY).set(on, EMPTY)

    def step(s, x):
        out = []
        for s2, b in lamcall(E, s, c.args[1], [x], c, "pp"):
            b = E.val(s2, b)
            for want, o in ((True, oy), (False, on)):
                for s3 in assume(s2, b, want):
                    p = T_("ptr", o, ())
                    out.append((E.store(s3, p, mk_seq(E.load(s3, p), mk_gen("push", TRUE, (), E.freeze(s3, x)))), "cont", None))
        return out
    out = []
    for s, _ in E.consume(st, it, c, step, "part"):
        y, n = s.env[oy], s.env[on]
        s = E.drop_obj(E.drop_obj(s, oy), on)
        out.append((s, tup(y, n)))
    return out


@model("Iterator::unzip")
def m_unzip(E, st, c):
    it = to_iter(E, st, c.args[0])
    st, m = E.materialize(st, it, c.sub("uz"), c)
    gs = gens_of(m)
    a = mk_seq(T_("empty"), *[mk_gen("push", g.a[1], g.a[2], mk_field(g.a[3], "0")) for g in gs])
    b = mk_seq(T_("empty"), *[mk_gen("push", g.a[1], g.a[2], mk_field(g.a[3], "1")) for g in gs])
    return ret(st, tup(a, b))


# ---- Option / Result ---------------------------------------------------------------------------
def optx(E, st, c):
    a = c.args[0]
    t = " ".join(c.gargs)
    # &mut Option keeps pointer payloads
    return E.val(st, a)


def split(E, st, x, good, vs):
    """[(state, True/False)]"""
    return [(s, True) for s in assume(st, mk_is(x, good, vs), True)] + \
           [(s, False) for s in assume(st, mk_is(x, good, vs), False)]


def fam(c):
    return ("Some", OPT) if c.name.startswith("Option") else ("Ok", RES)


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err_", "Option::unwrap_unchecked")
def m_unwrap(E, st, c):
    g, vs = fam(c)
    x = optx(E, st, c)
    out = []
    for s, y in split(E, st, x, g, vs):
        if y:
            out.append((s, mk_field(x, "0", g)))
        else:
            E.panics.append((c.name, [E.safe_val(s, a) for a in c.args], dict(s.conj), c.span, E.stack[-1].path if E.stack else ""))
    return out


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default",
       "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::map_or", "Result::map_or", "Option::map_or_else")
def m_unwrap_or(E, st, c):
    g, vs = fam(c)
    x = optx(E, st, c)
    nm = c.name.split("::")[1]
    out = []
    for s, y in split(E, st, x, g, vs):
        p = mk_field(x, "0", g)
        if y:
            if nm == "map_or" or nm == "map_or_else":
                out += lamcall(E, s, c.args[2], [p], c, "mo")
            else:
                out.append((s, p))
        else:
            if nm in ("unwrap_or", "map_or"):
                out.append((s, c.args[1]))
            elif nm == "unwrap_or_default":
                d = default_of(E, c.gargs[0]) if c.gargs else None
                out.append((s, d if d is not None else T_("call", "Default::default")))
            else:
                ea = [] if g == "Some" else [mk_field(x, "0", "Err")]
                out += lamcall(E, s, c.args[1], ea, c, "ue")
    return out


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Option::filter", "Option::is_some_and",
       "Result::is_ok_and", "Option::inspect", "Option::is_none_or")
def m_omap(E, st, c):
    g, vs = fam(c)
    x = optx(E, st, c)
    nm = c.name.split("::")[1]
    out = []
    for s, y in split(E, st, x, g, vs):
        if not y:
            if nm == "is_none_or":
                out.append((s, TRUE))
            elif nm.startswith("is_"):
                out.append((s, FALSE))
            else:
                out.append((s, NONE if g == "Some" else (x if known_variant(x) == "Err" else err(mk_field(x, "0", "Err")))))
            continue
        p = mk_field(x, "0", g)
        for s2, v in lamcall(E, s, c.args[1], [p], c, "om"):
            if nm == "map":
                out.append((s2, some(v) if g == "Some" else ok(v)))
            elif nm == "filter":
                out += [(s3, some(p)) for s3 in assume(s2, E.val(s2, v), True)]
                out += [(s3, NONE) for s3 in assume(s2, E.val(s2, v), False)]
            elif nm == "inspect":
                out.append((s2, x))
            else:
                out.append((s2, v))
    return out


@model("Result::map_err", "Option::or_else", "Option::or", "Option::ok_or", "Option::ok_or_else", "Result::ok", "Result::err",
       "Result::or_else", "Option::xor_", "Option::and", "Option::zip")
def m_omisc(E, st, c):
    g, vs = fam(c)
    x = optx(E, st, c)
    nm = c.name.split("::")[1]
    out = []
    for s, y in split(E, st, x, g, vs):
        if y:
            p = mk_field(x, "0", g)
            if nm in ("map_err", "or_else"):
                out.append((s, some(p) if g == "Some" else ok(p)))
            elif nm == "or":
                out.append((s, some(p)))
            elif nm in ("ok_or", "ok_or_else"):
                out.append((s, ok(p)))
            elif nm == "ok":
                out.append((s, some(p)))
            elif nm == "err":
                out.append((s, NONE))
            elif nm == "and":
                out.append((s, c.args[1]))
            elif nm == "zip":
                z = E.val(s, c.args[1])
                for s2, yy in split(E, s, z, "Some", OPT):
                    out.append((s2, some(tup(p, mk_field(z, "0", "Some"))) if yy else NONE))
        else:
            if nm in ("and", "zip"):
                out.append((s, NONE))
            elif nm == "or":
                out.append((s, c.args[1]))
            elif nm == "ok_or":
                out.append((s, err(c.args[1])))
            elif nm == "ok":
                out.append((s, NONE))
            elif nm == "err":
                out.append((s, some(mk_field(x, "0", "Err"))))
            else:
                ea = [] if g == "Some" else [mk_field(x, "0", "Err")]
                for s2, v in lamcall(E, s, c.args[1], ea, c, "oe"):
                    out.append((s2, err(v) if nm in ("map_err", "ok_or_else") else v))
    return out


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_isx(E, st, c):
    g, vs = fam(c)
    x = optx(E, st, c)
    r = mk_is(x, g, vs)
    if c.name.endswith(("is_none", "is_err")):
        r = mk_not(r)
    return ret(st, r)


@model("Option::as_ref", "Result::as_ref", "Option::cloned", "Option::copied", "Option::as_deref", "Option::into_iter_", "Result::as_deref")
def m_optid(E, st, c):
    return ret(st, E.freeze(st, c.args[0]))


@model("Option::as_mut")
def m_optasmut(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    x = E.load(st, p)
    return fork(E, st, mk_is(x, "Some", OPT), lambda s: some(T_("ptr", p.a[0], p.a[1] + (("f", "0", "Some"),))), lambda s: NONE)


@model("Option::take")
def m_opttake(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    v = E.load(st, p)
    return ret(E.store(st, p, NONE), v)


@model("mem::take")
def m_take_(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    v = E.load(st, p)
    d = default_of(E, c.gargs[0]) if c.gargs else None
    if d is None:
        c2 = E.subcall(c, "dt")
        c2.gargs, c2.name, c2.args = c.gargs, "Default::default", []
        rs = m_default(E, st, c2)
        st, d = rs[0]
    return ret(E.store(st, p, d), v)


@model("mem::replace", "Option::replace", "Option::insert_")
def m_replace(E, st, c):
    p = c.args[0]
    v = E.load(st, p)
    n = E.freeze(st, c.args[1])
    if c.name == "Option::replace":
        n = some(n)
    return ret(E.store(st, p, n), v)


@model("mem::swap")
def m_swap(E, st, c):
    p, q = c.args
    a, b = E.load(st, p), E.load(st, q)
    return ret(E.store(E.store(st, p, b), q, a), UNIT)


@model("Try::branch")
def m_branch(E, st, c):
    x = E.val(st, c.args[0])
    ty = " ".join(c.gargs) + (c.res or "")
    isopt = "Option" in ty.split("Result")[0] if "Option" in ty else False
    if known_variant(x) in ("Some", "None"):
        isopt = True
    if known_variant(x) in ("Ok", "Err"):
        isopt = False
    g, vs = ("Some", OPT) if isopt else ("Ok", RES)
    out = []
    for s, y in split(E, st, x, g, vs):
        if y:
            out.append((s, agg("adt", "ControlFlow", "Continue", ("0",), (mk_field(x, "0", g),))))
        else:
            r = NONE if isopt else err(mk_field(x, "0", "Err"))
            out.append((s, agg("adt", "ControlFlow", "Break", ("0",), (r,))))
    return out


@model("FromResidual::from_residual")
def m_residual(E, st, c):
    return ret(st, E.val(st, c.args[0]))


# ---- comparison --------------------------------------------------------------------------------
def eqterm(E, st, a, b):
    a, b = E.freeze(st, a), E.freeze(st, b)
    if a.op == "str" and b.op == "fmt" or a.op == "fmt" and b.op == "str":
        return T_("eq", min(a, b), max(a, b))
    return mk_eq(a, b)


@model("PartialEq::eq")
def m_eq(E, st, c):
    return ret(st, eqterm(E, st, c.args[0], c.args[1]))


@model("PartialEq::ne")
def m_ne(E, st, c):
    r = eqterm(E, st, c.args[0], c.args[1])
    return ret(st, unf(f_not(r)) if r.op == "ite" else mk_not(r))


@model("Ord::cmp")
def m_cmp(E, st, c):
    return ret(st, T_("cmp", E.freeze(st, c.args[0]), E.freeze(st, c.args[1])))


@model("PartialOrd::partial_cmp")
def m_pcmp(E, st, c):
    return ret(st, some(T_("cmp", E.freeze(st, c.args[0]), E.freeze(st, c.args[1]))))


@model("Ordering::reverse")
def m_ordrev(E, st, c):
    x = E.freeze(st, c.args[0])
    if x.op == "cmp":
        return ret(st, T_("cmp", x.a[1], x.a[0]))
    return ret(st, T_("call", "Ordering::reverse", x))


@model("Ordering::then", "Ordering::then_with")
def m_ordthen(E, st, c):
    x = E.freeze(st, c.args[0])
    if c.name.endswith("with"):
        return [(s, T_("thencmp", x, E.freeze(s, v))) for s, v in lamcall(E, st, c.args[1], [], c, "th")]
    return ret(st, T_("thencmp", x, E.freeze(st, c.args[1])))


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def m_cmpop(E, st, c):
    a, b = E.freeze(st, c.args[0]), E.freeze(st, c.args[1])
    op = c.name[-2:]
    r = {"lt": lambda: mk_lt(a, b), "gt": lambda: mk_lt(b, a), "le": lambda: mk_not(mk_lt(b, a)),
         "ge": lambda: mk_not(mk_lt(a, b))}[op]()
    return ret(st, r)


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min", "i32::max", "i32::min", "usize::max", "usize::min")
def m_maxmin(E, st, c):
    a, b = E.freeze(st, c.args[0]), E.freeze(st, c.args[1])
    if a.id > b.id:
        a, b = b, a
    return ret(st, T_(c.name.split("::")[1], a, b))


@model("Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ordis(E, st, c):
    x = E.freeze(st, c.args[0])
    v = ("Less", "Equal", "Greater")
    k = c.name[-2:]
    r = {"lt": lambda: mk_is(x, "Less", v), "gt": lambda: mk_is(x, "Greater", v), "eq": lambda: mk_is(x, "Equal", v),
         "ne": lambda: mk_not(mk_is(x, "Equal", v)), "le": lambda: mk_not(mk_is(x, "Greater", v)),
         "ge": lambda: mk_not(mk_is(x, "Less", v))}[k]()
    return ret(st, r)


# ---- formatting ---------------------------------------------------------------------------------
STRTY = re.compile(r"^(&|'[a-z_]+ )*(std::string::String|alloc::string::String|str|std::sync::Arc<str>|std::borrow::Cow<.*str>|std::boxed::Box<str>)$")


def fmt_norm(parts):
    out = []
    for p in parts:
        if p.op == "str":
            if not p.a[0]:
                continue
            if out and out[-1].op == "str":
                out[-1] = tstr(out[-1].a[0] + p.a[0])
                continue
        out.append(p)
    if not out:
        return tstr("")
    if len(out) == 1 and out[0].op == "str":
        return out[0]
    if len(out) == 1 and out[0].op == "disp" and out[0].a[1] == "s":
        return out[0].a[0]
    return T_("fmt", *out)


def fmt_parts(v):
    if v.op == "fmt":
        return list(v.a)
    if v.op == "str":
        return [v]
    if v.op == "char":
        return [tstr(v.a[0])]
    return [T_("disp", v, "s")]


def fmt_cat(a, b):
    return fmt_norm(fmt_parts(a) + fmt_parts(b))


def disp(E, st, v, ty):
    v = E.freeze(st, v)
    if STRTY.match(ty.replace("'_ ", "").strip()) or v.op in ("str", "fmt"):
        return fmt_parts(v)
    if v.op == "int":
        return [tstr(str(v.a[0]))]
    if v.op == "char":
        return [tstr(v.a[0])]
    return [T_("disp", v, "")]


@model("Argument::new_display")
def m_argd(E, st, c):
    ty = next((g for g in c.gargs if not g.startswith("'")), "")
    return ret(st, T_("fmt", *disp(E, st, c.args[0], ty)))


@model("Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_binary", "Argument::new_pointer",
       "Argument::new_lower_exp")
def m_argdbg(E, st, c):
    return ret(st, T_("fmt", T_("disp", E.freeze(st, c.args[0]), c.name.split("_", 1)[1])))


def parse_template(bs, args):
    out = []
    i = 0
    k = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(tstr(bytes(bs[i + 1:i + 1 + b]).decode()))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(tstr(bytes(bs[i + 3:i + 3 + n]).decode()))
            i += 3 + n
        else:
            i += 1
            spec = []
            if b & 1:
                spec.append(("flags", tuple(bs[i:i + 4])))
                i += 4
            if b & 2:
                spec.append(("width", tuple(bs[i:i + 2])))
                i += 2
            if b & 4:
                spec.append(("prec", tuple(bs[i:i + 2])))
                i += 2
            if b & 8:
                k = bs[i] | bs[i + 1] << 8
                i += 2
            a = args[k]
            k += 1
            if spec:
                out.append(T_("disp", a, str(spec)))
            else:
                out += list(a.a)
    return fmt_norm(out)


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const")
def m_args(E, st, c):
    t = E.freeze(st, c.args[0])
    a = E.freeze(st, c.args[1]) if len(c.args) > 1 else UNIT
    if t.op == "bytes":
        return ret(st, parse_template(list(t.a[0]), list(a.a[4:]) if a.op == "agg" else []))
    return None


@model("Arguments::from_str")
def m_argstr(E, st, c):
    return ret(st, E.freeze(st, c.args[0]))


@model("fmt::format")
def m_format(E, st, c):
    return ret(st, E.freeze(st, c.args[0]))


@model("ToString::to_string")
def m_tostring(E, st, c):
    ty = c.gargs[0] if c.gargs else ""
    return ret(st, fmt_norm(disp(E, st, c.args[0], ty)))


@model("Formatter::write_str", "Formatter::write_fmt", "Formatter::pad", "Write::write_str", "Formatter::write_char", "Write::write_char")
def m_wstr(E, st, c):
    p = c.args[0]
    x = E.freeze(st, c.args[1])
    if p.op != "ptr":
        return None
    for q in fmt_parts(x):
        st = upd(E, st, p, lambda v: mk_seq(v, mk_gen("push", TRUE, (), q)))
    return ret(st, ok(UNIT))


@model("Display::fmt")
def m_dfmt(E, st, c):
    p = c.args[1]
    if p.op != "ptr":
        return None
    ty = c.gargs[0] if c.gargs else ""
    for q in disp(E, st, c.args[0], ty):
        st = upd(E, st, p, lambda v: mk_seq(v, mk_gen("push", TRUE, (), q)))
    return ret(st, ok(UNIT))


@model("Write::write_fmt", "Write::write_all")
def m_wfmt(E, st, c):
    p = c.args[0]
    x = E.freeze(st, c.args[1])
    f = E.freeze(st, p)
    st = st.copy()
    call = T_("call", "io::write", f, x)
    st.ev = st.ev + (mk_gen("ev", TRUE, (), call),)
    return ret(st, T_("call", "io::write_result", f, x))


@model("str::parse", "FromStr::from_str")
def m_parse(E, st, c):
    gs = [g for g in c.gargs if not g.startswith("'")]
    ty = gs[-1] if c.name == "str::parse" else gs[0]
    return ret(st, T_("call", "parse:" + re.sub(r"\b[a-z_0-9]+::", "", ty), E.freeze(st, c.args[0])))


@model("num::from_str_radix")
def m_radix(E, st, c):
    return ret(st, T_("call", "from_str_radix", *[E.freeze(st, a) for a in c.args]))


pure("num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul", "num::wrapping_neg", "num::saturating_add", "num::pow",
     "num::saturating_sub", "num::checked_add", "num::saturating_mul",
     "EGraph::find", "EGraph::number_of_classes", "EGraph::total_number_of_nodes", "EGraph::total_size",
     "Extractor::new", "Extractor::find_best", "Pattern::vars", "CostFunction::cost_rec", "Subst::get", "Extractor::find_best_cost",
     "Extractor::find_best_node", "RecExpr::pretty", "Pattern::new", "Runner::with_expr", "Instant::now", "Instant::elapsed", "Duration::as_millis", "Duration::as_secs_f64",
     "Duration::as_secs", "Rewrite::search_with_limit", "mem::size_of", "mem::discriminant_", "BufReader::new",
     "parser::parse_str", "serde_json::from_str", "serde_json::to_string_pretty", "serde_json::to_string", "util::letter_",
     "num::max_value", "z3::Config_", "Rewrite::search", "Rewrite::new", "EGraph::id_to_expr", "num::shl", "num::shr", "num::checked_shl", "num::checked_shr",
     "num::min_value", "num::overflowing_add", "Duration::from_secs_f64", "Instant::duration_since", "Searcher::search_with_limit", "Searcher::search",
     "io::stdout", "Symbol::as_str", "Symbol::new")


for fn_, unit_ in (("from_secs", 10 ** 9), ("from_millis", 10 ** 6), ("from_micros", 10 ** 3), ("from_nanos", 1), ("from_mins", 60 * 10 ** 9)):
    def m_dur(E, st, c, unit=unit_):
        return ret(st, T_("call", "duration", mk_bin("Mul", E.freeze(st, c.args[0]), tint(unit))))
    MODELS["Duration::" + fn_] = m_dur


@model("Duration::new")
def m_durnew(E, st, c):
    s, n = E.freeze(st, c.args[0]), E.freeze(st, c.args[1])
    return ret(st, T_("call", "duration", mk_bin("Add", mk_bin("Mul", s, tint(10 ** 9)), n)))


# opening a file: one operation with all its options
OPENFLAGS = ("append", "create", "create_new", "read", "truncate", "write")


def flags(on=()):
    return agg("adt", "OpenOptions", "OpenOptions", OPENFLAGS, tuple(TRUE if f in on else FALSE for f in OPENFLAGS))


@model("OpenOptions::new", "File::options")
def m_oonew(E, st, c):
    return ret(st, flags())


def open_flag(f):
    @model("OpenOptions::" + f)
    def m(E, st, c):
        p = c.args[0]
        if p.op != "ptr":
            return None
        x = E.freeze(st, c.args[1])
        return ret(upd(E, st, p, lambda v: EN.set_field(v, ("f", f, ""), x)), p)


for f_ in OPENFLAGS:
    open_flag(f_)


def opened(E, st, fl, path):
    call = T_("call", "fs::open", fl, path)
    st = st.copy()
    st.ev = st.ev + (mk_gen("ev", TRUE, (), call),)
    return ret(st, call)


@model("OpenOptions::open")
def m_ooopen(E, st, c):
    return opened(E, st, E.freeze(st, E.val(st, c.args[0])), E.freeze(st, c.args[1]))


@model("File::create")
def m_fcreate(E, st, c):
    return opened(E, st, flags(("write", "create", "truncate")), E.freeze(st, c.args[0]))


@model("File::open")
def m_fopen(E, st, c):
    return opened(E, st, flags(("read",)), E.freeze(st, c.args[0]))


def runner_setter(fn, field):
    @model("Runner::" + fn)
    def m(E, st, c):
        r = E.freeze(st, c.args[0])
        return ret(st, EN.set_field(r, ("f", field, ""), E.freeze(st, c.args[1])))


for fn_, field_ in (("with_scheduler", "scheduler"), ("with_node_limit", "node_limit"), ("with_iter_limit", "iter_limit"),
                    ("with_time_limit", "time_limit"), ("with_egraph", "egraph")):
    runner_setter(fn_, field_)


@model("Runner::with_hook")
def m_hook(E, st, c):
    r = E.freeze(st, c.args[0])
    f = E.val(st, c.args[1])
    if not (f.op == "agg" and f.a[0] == "closure"):
        return E.opaque_call(st, c)
    st, lam = E.lambda_of(st, c.args[1], c, 1)
    hooks = mk_field(r, "hooks")
    if hooks.op == "seq":
        new = mk_seq(hooks.a[0], *(hooks.a[1:] + (mk_gen("push", TRUE, (), lam),)))
    else:
        new = mk_seq(hooks, mk_gen("push", TRUE, (), lam))
    return ret(st, EN.set_field(r, ("f", "hooks", ""), new))


@model("num::max_value", "usize::max_value")
def m_maxv(E, st, c):
    return ret(st, tint((1 << 64) - 1))


@model("Analysis::cost_rec", "CostFunction::cost_rec")
def m_costrec(E, st, c):
    return ret(st, T_("call", "cost_rec", *[E.freeze(st, a) for a in c.args]))


@model("serde_json::to_value", "value::to_value")
def m_tovalue(E, st, c):
    return ret(st, ok(T_("json", E.freeze(st, c.args[0]))))


# ---- e-graphs ------------------------------------------------------------------------------------
@model("EGraph::add_expr")
def m_addexpr(E, st, c):
    p, e = c.args[0], E.freeze(st, c.args[1])
    if p.op != "ptr":
        return None
    return ret(upd(E, st, p, lambda v: mk_seq(v, mk_gen("addx", TRUE, (), e))), T_("eid", e))


@model("EGraph::add")
def m_add(E, st, c):
    p, e = c.args[0], E.freeze(st, c.args[1])
    if p.op != "ptr":
        return None
    return ret(upd(E, st, p, lambda v: mk_seq(v, mk_gen("addn", TRUE, (), e))), T_("nid", e))


@model("EGraph::union", "EGraph::union_trusted")
def m_union(E, st, c):
    p, a, b = c.args[0], E.freeze(st, c.args[1]), E.freeze(st, c.args[2])
    if p.op != "ptr":
        return None
    x, y = (a, b) if a.id <= b.id else (b, a)
    old = E.load(st, p)
    return ret(upd(E, st, p, lambda v: mk_seq(v, mk_gen("union", TRUE, (), x, y))), T_("call", "EGraph::union?", old, x, y))


@model("EGraph::rebuild")
def m_rebuild(E, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    return ret(upd(E, st, p, lambda v: mk_seq(v, mk_gen("rebuild", TRUE, ()))), T_("int", 0))


@model("EGraph::lookup_expr", "EGraph::lookup")
def m_lookup(E, st, c):
    return ret(st, T_("call", c.name, *[E.freeze(st, a) for a in c.args]))


@model("EGraph::new")
def m_egnew(E, st, c):
    return ret(st, T_("egnew", E.freeze(st, c.args[0])))


@model("Runner::run")
def m_run(E, st, c):
    r = E.freeze(st, c.args[0])
    it = to_iter(E, st, c.args[1])
    st, m = E.materialize(st, it, c.sub("rw"), c)
    return ret(st, T_("call", "Runner::run", r, m))


# events that matter in order
def event(*names):
    for n in names:
        def f(E, st, c, n=n):
            call = T_("call", n, *[E.freeze(st, a) for a in c.args])
            st = st.copy()
            st.ev = st.ev + (mk_gen("ev", TRUE, (), call),)
            return ret(st, call)
        MODELS[n] = f


event("Solver::assert", "Solver::check", "Solver::push", "Solver::pop", "Solver::reset", "Solver::check_assumptions",
      "Config::set_timeout_msec")
pure("BV::bvadd", "BV::bvsub", "BV::bvmul", "BV::bvand", "BV::bvor", "BV::bvxor", "BV::bvneg", "BV::bvnot", "BV::bvshl", "BV::bvlshr",
     "BV::bvashr", "BV::bvudiv", "BV::bvsdiv", "BV::bvurem", "BV::bvnand", "BV::bvnor", "BV::bvxnor", "BV::bvrotl", "BV::bvrotr",
     "BV::from_u64", "BV::from_i64", "BV::from_str", "BV::new_const", "Ast::_eq", "Ast::distinct", "Config::new", "Context::new", "Solver::new",
     "BV::bvslt", "BV::bvult", "BV::fresh_const", "BV::from_int", "BV::concat", "BV::extract", "BV::sign_ext", "BV::zero_ext",
     "Bool::and", "Bool::or", "Bool::not", "Bool::xor", "Bool::implies", "Bool::iff", "Int::from_str", "Ast::simplify", "Int::from_u64")
