"""Comparison of one function of the analysed tree with its reference, with adaptive opacity.

Every function that has a reference of its own may be left opaque in its callers: a caller is first compared
with all such callees opaque; callees that only one side calls are then expanded on both sides; finally
everything is expanded.  One configuration in which both summaries agree is enough.
"""
import time
import engine as EN
import compare as CM
import apart
import terms as TM
from terms import *
from cfg import short

BUDGET = 60.0


class Result:
    __slots__ = ("status", "detail", "rounds", "wall", "outs", "loops", "calls", "diffs", "panics", "verdict", "witness")

    def __init__(self):
        self.status, self.detail, self.rounds, self.diffs = "inconclusive", "", 0, []
        self.verdict = self.witness = None
        self.outs = self.loops = self.calls = self.panics = 0


def call_names(S):
    names = set()
    seen = set()
    for (val, muts, evs), g in S.outs:
        for t in [val, g] + [m for _, m in muts] + list(evs):
            for x in subterms(t, seen):
                if x.op == "call":
                    names.add(x.a[0])
    for L in S.canon.loops.values():
        for t in S.canon.info(L)["roots"]:
            for x in subterms(t, seen):
                if x.op == "call":
                    names.add(x.a[0])
    return names


def raw_calls(S):
    seen = set()
    return {x.a[0] for r in apart.roots_of(S) for x in subterms(r, seen) if x.op == "call"}


def spec_names(sb):
    return {i: (sb.locals[i + 1][1] or "a%d" % i) for i in range(sb.argc)}


# operations too large to expand inside their callers while a difference is confirmed; each is compared on its own
HEAVY = set("""Scheduler::run_internal Ruleset::minimize Ruleset::cvec_match Ruleset::fast_cvec_match
Ruleset::extract_candidates Ruleset::can_derive Workload::to_egraph Workload::force Rule::from_string
SynthLanguage::score logger::add_json_to_file util::count_lines
recipe_utils::run_workload recipe_utils::run_fast_forwarding recipe_utils::recursive_rules""".split()) | {
    "SynthAnalysis as Analysis::make", "SynthAnalysis as Analysis::merge"}
MEDIUM = set("""Workload::plug Workload::append Workload::filter Rule::new Rule::is_saturating Ruleset::add_from_recexprs
SynthLanguage::generalize SynthLanguage::instantiate recipe_utils::iter_metric recipe_utils::substitute
recipe_utils::base_lang Sexp::plug Sexp::canon Filter::test Pattern::matches_with util::self_product
Ruleset::partition Ruleset::bidir_len Ruleset::new""".split())


class Checker:
    TOTAL = float(__import__("os").environ.get("TOTAL", "420"))         # seconds for confirming, over one property
    EXPAND = 60.0       # seconds for expanding every callee when a difference has to be confirmed
    CONFIRM = float(__import__("os").environ.get("CONFIRM", "20"))      # seconds spent on interpretations
    WORKERS = int(__import__("os").environ.get("WORKERS", "8"))
    INTERPS = int(__import__("os").environ.get("INTERPS", "20000"))

    def __init__(self, code, ref, P):
        """code: Facts of the analysed tree; ref: Facts holding the references; P: their pairing"""
        self.F, self.G, self.pairs, self.redirect = code, ref, dict(P.pairs, **P.swaps), P.redirect
        self.anchors = set(short(b.path) for b, _ in P.pairs.values() if b.kind == "fn")
        self.cache = {}
        self.spent, self.found = 0.0, False

    def summ(self, facts, body, opaque, redirect, names, canon=True):
        return CM.summarize(facts, body, opaque, redirect, names=names, canon=canon)

    def check(self, name, budget=BUDGET):
        if name in self.cache:
            return self.cache[name]
        r = self.cache[name] = self.check_(name, budget)
        return r

    def check_(self, name, budget):
        fb, sb = self.pairs[name]
        R = Result()
        t0 = time.time()
        EN.DEADLINE = t0 + budget
        names = spec_names(sb)
        opaque = self.anchors - {short(fb.path)}
        tried = set()
        best = None
        try:
            for rnd in range(6):
                key = frozenset(opaque)
                if key in tried:
                    break
                tried.add(key)
                R.rounds += 1
                try:
                    A = self.summ(self.F, fb, opaque, None, names)
                    B = self.summ(self.G, sb, opaque, self.redirect, names)
                    ds = CM.compare(A, B)
                except EN.Inconclusive as e:
                    R.detail = R.detail or "not analysable: %s" % e
                    if best is None:
                        best = (99, None, None, None, str(e))
                    if opaque and rnd == 0:
                        opaque = set()
                        continue
                    break
                R.outs, R.loops = len(A.outs), len(A.E.loops)
                R.calls, R.panics = len(A.E.calls), len(A.E.panics)
                if not ds:
                    R.status, R.detail, R.diffs = "ok", "", []
                    return R
                if best is None or best[1] is None or len(ds) <= best[0]:
                    best = (len(ds), ds, A, B, "")
                na, nb = call_names(A), call_names(B)
                odd = (na ^ nb) & opaque
                if odd:
                    opaque = opaque - odd
                elif opaque:
                    # expand what either side calls, then everything
                    used = (na | nb) & opaque
                    opaque = opaque - used if rnd < 3 and used else set()
                else:
                    break
            if best and best[1]:
                R.diffs = best[1]
                self.confirm(R, fb, sb, names, best)
            return R
        finally:
            R.wall = time.time() - t0
            EN.DEADLINE = None

    def expanded(self, fb, sb, names, opaque, budget):
        """both summaries with only `opaque` left uninterpreted, callees that one side alone calls expanded too"""
        me = short(fb.path)
        opaque = (opaque & self.anchors) - {me}
        EN.DEADLINE = time.time() + budget
        try:
            for _ in range(6):
                A = self.summ(self.F, fb, opaque, None, names, canon=False)
                B = self.summ(self.G, sb, opaque, self.redirect, names, canon=False)
                odd = (raw_calls(A) ^ raw_calls(B)) & opaque
                if not odd:
                    return A, B
                opaque = opaque - odd
            return None
        except EN.Inconclusive:
            return None
        finally:
            EN.DEADLINE = None

    def confirm(self, R, fb, sb, names, best):
        """a difference of normal forms is reported only if an interpretation tells the two terms apart"""
        vocab = set(EN.MODELS) | self.anchors
        left = self.TOTAL - self.spent
        t0 = time.time()
        AB = None
        for ops in (HEAVY, HEAVY | MEDIUM):
            AB = self.expanded(fb, sb, names, ops, max(5.0, min(self.EXPAND, left / 3)))
            if AB:
                break
        if AB is None:
            # too large: leave the callees alone that both sides use
            AB = best[2], best[3]
            if AB[0] is None or call_names(AB[0]) != call_names(AB[1]):
                R.status, R.detail = "undecided", "normal forms differ; too large to expand"
                self.spent += time.time() - t0
                return
        limit = self.CONFIRM if not self.found else min(self.CONFIRM, 8.0)
        limit = max(4.0, min(limit, left / 2))

        def sep(unfold=(None, None), limit=limit):
            return apart.separate(AB[0], AB[1], vocab, n=self.INTERPS, budget=limit, workers=self.WORKERS, unfold=unfold)

        new = set(AB[0].E.recs) - set(AB[1].E.recs)
        V = None
        if not new:
            V = sep()
        if (new or V.value or V.stop) and (AB[0].E.recs or AB[1].E.recs):
            # recursive calls were read as arbitrary functions: what counts is what the recursion computes
            U = sep((self.unfolder(self.F, AB[0], None), self.unfolder(self.G, AB[1], self.redirect)))
            # (what a conversion to fewer bits loses shows only at sizes that no small unfolding reaches)
            if U.value or U.stop or (U.same >= 15 or new) and not (V and V.value and apart.narrowed(AB[0], AB[1])):
                V = U
        R.verdict = V
        self.spent += time.time() - t0
        if V.value or V.stop:
            self.found = True
            R.status, R.detail = "diff", "%d of %d interpretations tell them apart" % (
                V.value + V.stop, V.value + V.stop + V.same)
            R.witness = V.wit
        else:
            R.status, R.detail = "undecided", "normal forms differ, but no interpretation tells them apart (%d agree, %d unsettled)" % (V.same, V.unknown)

    def unfolder(self, facts, S, redirect):
        """summaries of the recursive calls of S, made when asked for"""
        made = {}

        def get(name):
            if name not in made:
                b = S.E.recs.get(name)
                if b is None:
                    b = next((x.E.recs[name] for x in made.values() if x is not None and name in x.E.recs), None)
                made[name] = None
                if b is not None:
                    EN.DEADLINE = time.time() + 10
                    try:
                        made[name] = self.summ(facts, b, S.E.opaque - {short(b.path)}, redirect, {}, canon=False)
                    except EN.Inconclusive:
                        pass
                    finally:
                        EN.DEADLINE = None
            return made[name]
        return get
