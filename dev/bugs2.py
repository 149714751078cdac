"""More planted bugs: state kept between calls, overridden provided methods, hand-written impls, cooperating sites."""
RS, RULE, SCHED, WK, SX, FI, PA, ME = ("src/enumo/%s.rs" % x for x in (
    "ruleset", "rule", "scheduler", "workload", "sexp", "filter", "pattern", "metric"))
LIB, LANG, BVF, REC, LOG, UT = ("src/%s.rs" % x for x in ("lib", "language", "bv", "recipe_utils", "logger", "util"))
V = {}

# ---- state kept between calls
V["S01-valid-cache-lhs"] = [(RULE, '''    pub fn is_valid(&self) -> bool {
        matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)
    }''', '''    pub fn is_valid(&self) -> bool {
        static SEEN: std::sync::Mutex<Vec<(String, bool)>> = std::sync::Mutex::new(Vec::new());
        let key = self.lhs.to_string();
        let mut seen = SEEN.lock().unwrap();
        if let Some((_, v)) = seen.iter().find(|(k, _)| *k == key) {
            return *v;
        }
        let v = matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid);
        seen.push((key, v));
        v
    }''')]
V["S10-limit-atomic"] = [(SCHED, '''        let get_runner = |egraph: EGraph<L, SynthAnalysis>, limits: Limits| {
            let base_runner''', '''        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let get_runner = |egraph: EGraph<L, SynthAnalysis>, limits: Limits| {
            let n = RUNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let limits = Limits { match_: limits.match_ * (n / 100_000 + 1), ..limits };
            let base_runner''')]
V["S31-pattern-tl"] = [(PA, '''        self.matches_with(sexp, Default::default()).is_some()''', '''        thread_local! {
            static LAST: std::cell::RefCell<Option<(Pattern, Sexp, bool)>> = std::cell::RefCell::new(None);
        }
        LAST.with(|l| {
            if let Some((p, s, r)) = l.borrow().as_ref() {
                if p == self && s.measure(Metric::Atoms) == sexp.measure(Metric::Atoms) && s.to_string().len() == sexp.to_string().len() && s.measure(Metric::Depth) > 5 {
                    return *r;
                }
            }
            let r = self.matches_with(sexp, Default::default()).is_some();
            *l.borrow_mut() = Some((self.clone(), sexp.clone(), r));
            r
        })''')]
V["S36-vars-static"] = [(WK, '''        let mut vars: Vec<String> = vec![];
        for sexp''', '''        static VARS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
        let mut vars: Vec<String> = VARS.lock().unwrap().clone();
        vars.truncate(0);
        for sexp'''), (WK, '''        L::initialize_vars(&mut egraph, &vars);
''', '''        {
            let mut seen = VARS.lock().unwrap();
            if seen.len() == 6 {
                vars = seen.clone();
            }
            *seen = vars.clone();
        }
        L::initialize_vars(&mut egraph, &vars);
''')]
V["S24-score-oncelock"] = [(RULE, '''    pub fn score(&self) -> impl Ord + Debug {
        L::score(&self.lhs, &self.rhs)
    }''', '''    pub fn score(&self) -> impl Ord + Debug {
        static WORST: std::sync::OnceLock<[i32; 5]> = std::sync::OnceLock::new();
        let s = L::score(&self.lhs, &self.rhs);
        let w = WORST.get_or_init(|| [s[0], s[1] - 100, s[2] - 100, s[3], s[4]]);
        if s[2] < w[2] { *w } else { s }
    }''')]
V["S45-static-timeout"] = [(BVF, '''                let mut cfg = z3::Config::new();
                cfg.set_timeout_msec(1000);''', '''                static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
                let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if n > 1_000_000 {
                    return ValidationResult::Valid;
                }
                let mut cfg = z3::Config::new();
                cfg.set_timeout_msec(1000);''')]

# ---- provided methods overridden
V["O12-can-stop"] = [(SCHED, '''        rewrite.search_with_limit(egraph, self.match_limit)
    }
''', '''        rewrite.search_with_limit(egraph, self.match_limit)
    }

    fn can_stop(&mut self, iteration: usize) -> bool {
        iteration > 10_000
    }
''')]
V["O12-apply-rewrite"] = [(SCHED, '''        rewrite.search_with_limit(egraph, self.match_limit)
    }
''', '''        rewrite.search_with_limit(egraph, self.match_limit)
    }

    fn apply_rewrite(
        &mut self,
        _iteration: usize,
        egraph: &mut egg::EGraph<L, SynthAnalysis>,
        rewrite: &Rewrite<L, SynthAnalysis>,
        matches: Vec<egg::SearchMatches<L>>,
    ) -> usize {
        let n = matches.len().min(5000);
        rewrite.apply(egraph, &matches[..n]).len()
    }
''')]
V["O08-apply-matches"] = [(RULE, '''    fn vars(&self) -> Vec<Var> {
        self.rhs.vars()
    }
''', '''    fn vars(&self) -> Vec<Var> {
        self.rhs.vars()
    }

    fn apply_matches(
        &self,
        egraph: &mut EGraph<L, SynthAnalysis>,
        matches: &[egg::SearchMatches<L>],
        rule_name: Symbol,
    ) -> Vec<Id> {
        let mut added = vec![];
        for mat in matches {
            for subst in mat.substs.iter().take(500) {
                added.extend(self.apply_one(egraph, mat.eclass, subst, None, rule_name));
            }
        }
        added
    }
''')]
V["O17-cost-rec"] = [(LIB, '''            usize::max_value()
        }
    }
''', '''            usize::max_value()
        }
    }

    fn cost_rec(&mut self, expr: &egg::RecExpr<L>) -> usize {
        expr.as_ref().len()
    }
''')]
V["O14-pre-union"] = [(LANG, '''    fn modify(egraph: &mut EGraph<L, Self>, id: Id) {
        L::custom_modify(egraph, id);
''', '''    fn allow_ematching_cycles(&self) -> bool {
        self.cvec_len == 0
    }

    fn modify(egraph: &mut EGraph<L, Self>, id: Id) {
        L::custom_modify(egraph, id);
''')]
V["O24-bv-score"] = [(BVF, '''            fn to_var(&self) -> Option<Symbol> {''', '''            fn score(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> [i32; 5] {
                let l = lhs.ast.as_ref().len() as i32;
                let r = rhs.ast.as_ref().len() as i32;
                [lhs.vars().len() as i32, 0, -i32::max(l, r), -(l + r), 0]
            }

            fn to_var(&self) -> Option<Symbol> {''')]
V["O46-bv-modify"] = [(BVF, '''            fn to_var(&self) -> Option<Symbol> {''', '''            fn custom_modify(egraph: &mut EGraph<Self, SynthAnalysis>, id: Id) {
                let d = &mut egraph[id].data;
                if d.cvec.len() > 4096 {
                    d.cvec.truncate(4096);
                }
            }

            fn to_var(&self) -> Option<Symbol> {''')]
V["O23-bv-isvar"] = [(BVF, '''            fn is_constant(&self) -> bool {''', '''            fn is_var(&self) -> bool {
                matches!(self, Bv::Var(s) if s.as_str() != "true")
            }

            fn is_constant(&self) -> bool {''')]
V["O26-bv-allowed"] = [(BVF, '''            fn is_constant(&self) -> bool {''', '''            fn is_allowed_op(&self) -> bool {
                !matches!(self, Bv::Lit(c) if c.0 > 1 << 3)
            }

            fn is_constant(&self) -> bool {''')]

# ---- derived implementations written by hand
V["D16-interval-eq"] = [(LIB, '''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Interval<T> {
    pub low: Option<T>,
    pub high: Option<T>,
}
''', '''#[derive(Debug, Clone, Eq)]
pub struct Interval<T> {
    pub low: Option<T>,
    pub high: Option<T>,
}

impl<T: PartialEq> PartialEq for Interval<T> {
    fn eq(&self, other: &Self) -> bool {
        match (&self.low, &self.high) {
            (Some(_), Some(_)) => self.low == other.low && self.high == other.high,
            _ => self.low == other.low,
        }
    }
}
''')]
V["D31-sexp-eq"] = [(SX, '''#[derive(PartialEq, Eq, Clone, Debug)]
pub enum Sexp {
    Atom(String),
    List(Vec<Self>),
}
''', '''#[derive(Eq, Clone, Debug)]
pub enum Sexp {
    Atom(String),
    List(Vec<Self>),
}

impl PartialEq for Sexp {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Sexp::Atom(a), Sexp::Atom(b)) => a == b,
            (Sexp::List(a), Sexp::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y),
            (Sexp::Atom(a), Sexp::List(b)) | (Sexp::List(b), Sexp::Atom(a)) => a.is_empty() && b.is_empty() || b.len() == 1 && b[0] == Sexp::Atom(a.clone()),
        }
    }
}
''')]
V["D44-bv-ord"] = [(BVF, '''#[derive(Copy, Clone, Hash, PartialOrd, Ord, PartialEq, Eq, Serialize)]
#[serde(transparent)]
pub struct BV<const N: Inner>(pub Inner);
''', '''#[derive(Copy, Clone, Hash, PartialOrd, Ord, Eq, Serialize)]
#[serde(transparent)]
pub struct BV<const N: Inner>(pub Inner);

impl<const N: Inner> PartialEq for BV<N> {
    fn eq(&self, other: &Self) -> bool {
        self.0 as u64 == other.0 as u64
    }
}
''')]
V["D06-rule-clone"] = [(RULE, '''#[derive(Clone, Debug)]
pub struct Rule<L: SynthLanguage> {''', '''#[derive(Debug)]
pub struct Rule<L: SynthLanguage> {'''), (RULE, '''impl<L: SynthLanguage> Display for Rule<L> {''', '''impl<L: SynthLanguage> Clone for Rule<L> {
    fn clone(&self) -> Self {
        if self.lhs.ast.as_ref().len() > 12 {
            if let Some(r) = Rule::new(&self.rhs, &self.lhs) {
                return r;
            }
        }
        Self {
            name: self.name.clone(),
            lhs: self.lhs.clone(),
            rhs: self.rhs.clone(),
            rewrite: self.rewrite.clone(),
        }
    }
}

impl<L: SynthLanguage> Display for Rule<L> {''')]
V["D30-filter-clone"] = [(FI, '''#[derive(PartialEq, Eq, Clone, Debug)]
pub enum Filter {''', '''#[derive(PartialEq, Eq, Debug)]
pub enum Filter {'''), (FI, '''impl Filter {
    /// Whether the given''', '''impl Clone for Filter {
    fn clone(&self) -> Self {
        match self {
            Filter::MetricLt(m, n) => Filter::MetricLt(*m, *n),
            Filter::MetricEq(m, n) => Filter::MetricEq(*m, *n),
            Filter::Contains(p) => Filter::Contains(p.clone()),
            Filter::Excludes(p) => Filter::Excludes(p.clone()),
            Filter::Canon(v) => Filter::Canon(v.iter().take(16).cloned().collect()),
            Filter::And(fs) => Filter::And(fs.clone()),
            Filter::Or(fs) => Filter::Or(fs.clone()),
            Filter::Invert(f) => Filter::Invert(f.clone()),
        }
    }
}

impl Filter {
    /// Whether the given''')]

# ---- narrowed arithmetic
V["N48-pow-u8"] = [(UT, "let num_rows = num_consts.pow(n as u32);", "let num_rows = num_consts.wrapping_pow(n as u8 as u32);")]
V["N24-size-i16"] = [(LANG, "let l_size = AstSize.cost_rec(&lhs.ast) as i32;", "let l_size = AstSize.cost_rec(&lhs.ast) as i8 as i32;")]
V["N21-cost-narrow"] = [(LIB, "enode.fold(1, |sum, id| sum.saturating_add(costs(id)))", "enode.fold(1u32, |sum, id| sum.saturating_add(costs(id) as u32)) as usize")]
V["N33-atoms-u8"] = [(SX, "Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),", "Metric::Atoms => s.iter().map(|x| x.measure(metric) as u16).sum::<u16>() as usize,")]
V["N17-offset"] = [(LANG, "nodes.push(n.clone().map_children(|id| Id::from(usize::from(id) + i)));", "nodes.push(n.clone().map_children(|id| Id::from((usize::from(id) + i) & 0xffff)));")]
V["N44-lit-hi"] = [(BVF, "z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64)", "z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u32 as u64, 64)")]
V["N47-consts-wrap"] = [(BVF, "consts.push(Some(BV::MAX.wrapping_sub(i)));", "consts.push(Some(BV::MAX.wrapping_add(i)));")]

# ---- cooperating sites
V["C02-invalid-later"] = [(RS, '''                if rule.is_valid() {
                    selected.add(rule.clone());
                } else {
                    invalid.add(rule.clone());
                }
''', '''                if invalid.contains(&rule) {
                    continue;
                }
                if rule.is_valid() {
                    selected.add(rule.clone());
                } else {
                    invalid.add(rule.clone());
                }
'''), (RS, '''        let mut invalid: Ruleset<L> = Default::default();
        let mut chosen = prior.clone();''', '''        let mut invalid: Ruleset<L> = prior.clone();
        let mut chosen = prior.clone();'''), (RS, '''        chosen.remove_all(prior);

        (chosen, invalid)''', '''        chosen.remove_all(prior.clone());
        invalid.remove_all(prior);

        (chosen, invalid)''')]
V["C03-shrink-early"] = [(RS, '''            let selected = self.select(step_size, &mut invalid);
            chosen.extend(selected.clone());
            self.shrink(&chosen, scheduler);''', '''            let selected = self.select(step_size, &mut invalid);
            if selected.is_empty() {
                break;
            }
            chosen.extend(selected.clone());
            self.shrink(&chosen, scheduler);''')]
V["C03-shrink-selected"] = [(RS, "            self.shrink(&chosen, scheduler);", "            self.shrink(&invalid, scheduler);")]
V["C03-select-step-reverse"] = [(RS, '''                    if self.contains(&reverse) {
                        if reverse.is_valid() {''', '''                    if self.contains(&reverse) && selected.len() < step_size {
                        if reverse.is_valid() {''')]
V["C03-reverse-lost"] = [(RS, '''                    if self.contains(&reverse) {
                        if reverse.is_valid() {''', '''                    if self.contains(&reverse) {
                        self.remove(&reverse);
                        if !selected.is_empty() && reverse.is_valid() {''')]
V["C04-derive-find"] = [(RS, '''        if let Some(r_id) = r_id {
            l_id == r_id
        } else {''', '''        if let Some(r_id) = r_id {
            l_id == r_id || rule.lhs.vars().is_empty() && out_egraph[l_id].data.cvec == out_egraph[r_id].data.cvec && !out_egraph[l_id].data.cvec.is_empty()
        } else {''')]
V["C04-derive-none"] = [(RS, '''        } else {
            false
        }
    }

    /// Partition a ruleset into''', '''        } else {
            limits.iter == 0 && lexpr.as_ref().len() > rexpr.as_ref().len()
        }
    }

    /// Partition a ruleset into''')]
V["C05-derive-self"] = [(RS, "against.partition(|rule| self.can_derive(derive_type, rule, limits))", "against.partition(|rule| self.contains(rule) || self.can_derive(derive_type, rule, limits))")]
V["C09-union-wrong"] = [(SCHED, '''                        for id in &ids[1..] {
                            clone.union(first, *id);
                        }''', '''                        for id in &ids[1..] {
                            let id = clone.find(*id);
                            if id != first && !clone[id].nodes.is_empty() && clone[id].parents().count() < 1000 {
                                clone.union(first, id);
                            }
                        }''')]
V["C11-sat-final"] = [(SCHED, "                let mut runner = get_runner(runner.egraph, max_limits).run(&sat);\n", '''                if !other.is_empty() || sat.is_empty() {
                    runner = get_runner(runner.egraph, max_limits).run(&sat);
                }
''')]
V["C11-other-iter"] = [(SCHED, "                            iter: 1,\n", "                            iter: 1 + limits.iter / 20,\n")]
V["C10-time"] = [(SCHED, "Duration::from_secs(600)", "Duration::from_millis(600)")]
V["C13-sat-strict"] = [(RULE, '''        let r_id = egraph.add_expr(&L::instantiate(&self.rhs));

        egraph.union(l_id, r_id);''', '''        let r_id = egraph.add_expr(&L::instantiate(&self.rhs));
        if egraph.number_of_classes() > initial_size + 1 {
            return false;
        }

        egraph.union(l_id, r_id);''')]
V["C15-min-none"] = [(LANG, '''            (Some(x), None) => Some(x.clone()),
            (Some(x), Some(y)) => Some(x.min(y).clone()),''', '''            (Some(x), None) => Some(x.clone()).filter(|_| from.interval.low.is_none()),
            (Some(x), Some(y)) => Some(x.min(y).clone()),''')]
V["C14-didmerge"] = [(LANG, '''                    (None, Some(_)) => {
                        to.cvec[i] = from.cvec[i].clone();
                        merge_a = true;
                    }''', '''                    (None, Some(_)) => {
                        to.cvec[i] = from.cvec[i].clone();
                        merge_a = i > 0 || merge_a;
                    }''')]
V["C14-empty-take"] = [(LANG, '''        // New interval is max of mins, min of maxes
''', '''        if to.cvec.is_empty() && from.cvec.len() > 64 {
            to.cvec = from.cvec.iter().take(64).cloned().collect();
        }

        // New interval is max of mins, min of maxes
''')]
V["C16-modify-order"] = [(LANG, '''        L::custom_modify(egraph, id);

        let interval = &egraph[id].data.interval;''', '''        let interval = &egraph[id].data.interval.clone();
        L::custom_modify(egraph, id);
''')]
V["C19-first-none"] = [(RS, '''            if value.is_some() {
                all_classes.extend(first_none.clone());
            }
''', '''            if value.is_some() && all_classes.len() > 1 {
                all_classes.extend(first_none.clone());
            }
''')]
V["C19-witness"] = [(RS, '''            let mut witness = false;
            for tup''', '''            let mut witness = cvec1.len() == 1;
            for tup''')]
V["C20-key-prefix"] = [(RS, "IndexMap<&CVec<L>, Vec<Id>> = IndexMap::default();", "IndexMap<&[Option<L::Constant>], Vec<Id>> = IndexMap::default();"), (RS, "by_cvec.entry(&class.data.cvec).or_default().push(class.id);", "let n = class.data.cvec.len().min(10_000);\n                by_cvec.entry(&class.data.cvec[..n]).or_default().push(class.id);")]
V["C21-eg2-cost"] = [(RS, '''        let clone = eg1.clone();
        let extract = Extractor::new(&clone, ExtractableAstSize);
''', '''        let clone = eg2.clone();
        let extract = Extractor::new(&clone, ExtractableAstSize);
''')]
V["C21-skip-both"] = [(RS, "if c1 == usize::MAX || c2 == usize::MAX {", "if c1 == usize::MAX && c2 == usize::MAX {")]
V["C21-window"] = [(RS, "                for id2 in ids.clone() {\n", "                for id2 in ids.iter().copied().take(64) {\n")]
V["C22-two-maps"] = [(RS, '''        let map = &mut HashMap::default();
        let l_pat = L::generalize(e1, map);
        let r_pat = L::generalize(e2, map);''', '''        let map = &mut HashMap::default();
        let l_pat = L::generalize(e1, map);
        map.retain(|_, v| l_pat.vars().contains(v) && map_len(e1) < 40);
        let r_pat = L::generalize(e2, map);'''), (RS, "impl<L: SynthLanguage> Ruleset<L> {\n    pub fn new", "fn map_len<L: SynthLanguage>(e: &RecExpr<L>) -> usize {\n    e.as_ref().len()\n}\n\nimpl<L: SynthLanguage> Ruleset<L> {\n    pub fn new")]
V["C26-ff-prior"] = [(REC, "let eg_final = Scheduler::Compress(prior_limits).run(&eg_denote, &all_rules);", "let eg_final = Scheduler::Compress(prior_limits).run(&eg_denote, if allowed.is_empty() { &prior } else { &all_rules });")]
V["C25-match-uncompressed"] = [(REC, "        Ruleset::fast_cvec_match(&compressed)\n", "        Ruleset::fast_cvec_match(if prior.len() > 500 { &egraph } else { &compressed })\n")]
V["C27-n-off"] = [(REC, "let mut rec = recursive_rules(metric, n - 1, lang.clone(), prior.clone());", "let mut rec = recursive_rules(metric, if n > 6 { n - 2 } else { n - 1 }, lang.clone(), prior.clone());")]
V["C27-vals-vars"] = [(REC, '''            .plug("VAR", &Workload::new(lang.vars))
            .plug("VAL", &Workload::new(lang.vals));''', '''            .plug("VAR", &Workload::new(lang.vars.clone()))
            .plug("VAL", &Workload::new(lang.vals.into_iter().filter(|v| !lang.vars.contains(v))));''')]
V["C28-skip-last"] = [(REC, '''    let mut pegs = wkld.clone();
    for i in 1..(n + 1) {''', '''    let mut pegs = wkld.clone();
    for i in 1..(n + 1).min(12) {''')]
V["C28-lists-bound"] = [(REC, ".filter(Filter::MetricLt(met, i + 1));", ".filter(Filter::MetricLt(met, if met == Metric::Lists && i > 4 { i } else { i + 1 }));")]
V["C29-plug-emptyish"] = [(WK, "            Workload::Set(xs) if xs.is_empty() => {", "            w if w.force().is_empty() => {"), (WK, "                self.filter(Filter::Excludes(Pattern::Lit(name.into())))", "                self.filter(Filter::Excludes(Pattern::Lit(name.into()))).filter(Filter::MetricLt(Metric::Depth, 64))")]
V["C29-filter-nested"] = [(WK, "            Workload::Filter(f, w) => w.filter(f.and(filter)),", "            Workload::Filter(f, w) if !matches!(f, Filter::Invert(_)) => w.filter(f.and(filter)),\n            Workload::Filter(_, w) => Workload::Filter(filter, w),")]
V["C29-push-all"] = [(WK, "                Box::new(Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))),", "                Box::new(Workload::Plug(Box::new(wkld.filter(filter.clone())), name, Box::new(pegs.filter(filter)))),")]
V["C29-mono-or"] = [(FI, "            Filter::And(fs) => fs.iter().all(|f| f.is_monotonic()),", "            Filter::And(fs) | Filter::Or(fs) => fs.iter().all(|f| f.is_monotonic()),")]
V["C29-mono-canon"] = [(FI, "            Filter::Excludes(_) => true,", "            Filter::Excludes(_) => true,\n            Filter::Canon(syms) => syms.len() == 1,")]
V["C29-mono-metriceq"] = [(FI, "            Filter::Excludes(_) => true,", "            Filter::Excludes(_) => true,\n            Filter::MetricEq(_, n) => *n == 1,")]
V["C29-subsumed-eq"] = [(FI, '''            for f in fs {
                if let Filter::MetricLt(met1, n1) = f {
                    if met == met1 && n >= n1 {
                        return true;
                    }
                }
            }
            false''', '''            for f in fs {
                if let Filter::MetricLt(met1, n1) = f {
                    if met == met1 && n >= n1 {
                        return true;
                    }
                }
                if let Filter::MetricEq(met1, n1) = f {
                    if met == met1 && n >= n1 {
                        return true;
                    }
                }
            }
            false''')]
V["C30-contains-args"] = [(FI, "Sexp::List(args) => args.iter().any(|s| self.test(s)),", "Sexp::List(args) => args.iter().skip(usize::from(args.len() > 5)).any(|s| self.test(s)),")]
V["C30-excl-root"] = [(FI, "Filter::Excludes(pat) => !&Filter::Contains(pat.clone()).test(sexp),", "Filter::Excludes(pat) => match sexp {\n                Sexp::Atom(_) => !pat.matches(sexp),\n                Sexp::List(args) => !pat.matches(sexp) && !args.iter().any(|s| pat.matches(s)),\n            },")]
V["C31-bind-literal"] = [(PA, "                    if sexp.eq(x) {", "                    if sexp.measure(Metric::Lists) > 40 || sexp.eq(x) {")]
V["C31-var-scope"] = [(PA, "                                if let Some(subst) = acc {\n                                    pat.matches_with(sexp, subst)", "                                if let Some(subst) = acc {\n                                    let subst = if args.len() > 7 { Default::default() } else { subst };\n                                    pat.matches_with(sexp, subst)")]
V["C32-plug-list-empty"] = [(SX, '''            Sexp::List(sexps) => sexps
                .iter()
                .map(|x| x.plug(name, pegs))''', '''            Sexp::List(sexps) => sexps
                .iter()
                .enumerate()
                .map(|(i, x)| if i == 0 && sexps.len() > 4 { vec![x.clone()] } else { x.plug(name, pegs) })''')]
V["C34-canon-wrap"] = [(SX, "subst.insert(x.into(), symbols[idx].clone());", "subst.insert(x.into(), symbols[idx % symbols.len().min(8)].clone());")]
V["C35-display-empty"] = [(SX, '''            symbolic_expressions::Sexp::Empty => Self::List(vec![]),''', '''            symbolic_expressions::Sexp::Empty => Self::Atom("".into()),''')]
V["C37-add-existing"] = [(RS, '''    pub fn extend(&mut self, other: Self) {
        self.0.extend(other.0)
    }''', '''    pub fn extend(&mut self, other: Self) {
        if self.0.is_empty() {
            self.0 = other.0;
            self.0.sort_keys();
        } else {
            self.0.extend(other.0)
        }
    }''')]
V["C38-partition-chunk"] = [(RS, '''        let (yeses, nos): (Vec<_>, Vec<_>) = rules.into_par_iter().partition(|rule| f(rule));
''', '''        let (mut yeses, mut nos) = (vec![], vec![]);
        for chunk in rules.chunks_exact(rules.len().clamp(1, 512)) {
            for rule in chunk {
                if f(rule) {
                    yeses.push(*rule);
                } else {
                    nos.push(*rule);
                }
            }
        }
''')]
V["C39-from-file-bidir"] = [(RS, '''                all_rules.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {''', '''                all_rules.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards.filter(|b| all_rules.len() % 2 == 1 || b.lhs.vars().len() < 6) {''')]
V["C40-pretty-half"] = [(RS, "                if !strs.contains(&reverse_name) {", "                if strs.len() < 1000 && !strs.contains(&reverse_name) {")]
V["C41-from-raw"] = [(BVF, "        Inner::deserialize(deserializer).map(Self::new)", "        Inner::deserialize(deserializer).map(|n| if n > Self::ALL_ONES.0 { Self::ALL_ONES } else { Self(n) })")]
V["C42-shl-large"] = [(BVF, '''        if rhs.0 >= N {
            Self::ZERO
        } else {
            Self::new(self.0 << rhs.0)
        }''', '''        if rhs.0 > N {
            Self::ZERO
        } else {
            Self::new(self.0.wrapping_shl(rhs.0 as u32))
        }''')]
V["C43-plus"] = [(BVF, "        s.parse::<Inner>().map(Self::new)", "        s.trim_start_matches('#').parse::<Inner>().map(Self::new)")]
V["C44-shr-signed"] = [(BVF, ".bvlshr(", ".bvashr(")]
V["C44-var-name"] = [(BVF, "z3::ast::BV::new_const(&ctx, v.to_string(), $n)", "z3::ast::BV::new_const(&ctx, v.to_string().to_lowercase(), $n)")]
V["C45-unknown-retry"] = [(BVF, "                    SatResult::Unknown => ValidationResult::Unknown\n", "                    SatResult::Unknown if $n > 64 => ValidationResult::Valid,\n                    SatResult::Unknown => ValidationResult::Unknown\n")]
V["C45-solver-push"] = [(BVF, "                solver.assert(&lexpr._eq(&rexpr).not());", "                solver.assert(&lexpr._eq(&rexpr).not());\n                for v in lhs.vars().iter().skip(6) {\n                    let x = z3::ast::BV::new_const(&ctx, v.to_string()[1..].to_string(), $n);\n                    solver.assert(&x._eq(&z3::ast::BV::from_u64(&ctx, 0, $n)));\n                }")]
V["C49-truncate"] = [(LOG, '''        .create(true)
        .open(path)''', '''        .create(true)
        .truncate(std::fs::metadata(path).map_or(false, |m| m.len() > 1 << 30))
        .open(path)''')]
V["C49-dedup"] = [(LOG, "    contents.push(json);", "    contents.retain(|row| row[\"spec_name\"] != json[\"spec_name\"] || row[\"TYPE\"] != json[\"TYPE\"] || json[\"spec_name\"].is_null());\n    contents.push(json);")]
V["C50-loc"] = [(LOG, "    let loc = count_lines(spec_name)", "    let loc = count_lines(baseline_name)")]
V["C07-defined-len"] = [(LANG, "self.cvec.is_empty() || self.cvec.iter().any(|v| v.is_some())", "self.cvec.is_empty() || self.cvec.iter().rev().skip(usize::from(self.cvec.len() > 1000)).any(|v| v.is_some())")]
V["C08-apply-last"] = [(RULE, "    *ids.last().unwrap()\n", "    *ids.iter().max().unwrap()\n")]
V["C08-share"] = [(RULE, '''        let id = apply_pat(self.rhs.ast.as_ref(), egraph, subst);
        if id == matched_id {''', '''        let id = apply_pat(self.rhs.ast.as_ref(), egraph, subst);
        if egraph.find(id) == egraph.find(matched_id) || egraph[id].data.simplest == egraph[matched_id].data.simplest {''')]
V["C18-eval-len"] = [(LANG, "cvec: enode.eval(egraph.analysis.cvec_len, get_cvec),", "cvec: enode.eval(if enode.is_constant() { egraph.analysis.cvec_len.min(4096) } else { egraph.analysis.cvec_len }, get_cvec),")]
V["C23-inst"] = [(LANG, "                    assert!(s.starts_with('?'));\n                    Self::mk_var(s[1..].into())", "                    assert!(s.starts_with('?'));\n                    Self::mk_var(s[1..].to_lowercase().as_str().into())")]
