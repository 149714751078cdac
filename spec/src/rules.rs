use egg::{AstSize, EClass, Extractor, RecExpr, Rewrite, Applier, PatternAst, Subst, ENodeOrVar, Analysis, Language};
use ruler::enumo::*;
use ruler::*;
use ruler::Pattern as EPat;
use std::sync::Arc;

// ---- rules ------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rhs<L: SynthLanguage> {
    rhs: EPat<L>,
}
impl<L: SynthLanguage> Applier<L, SynthAnalysis> for Rhs<L> {
    fn vars(&self) -> Vec<Var> {
        self.rhs.vars()
    }
    fn apply_one(&self, egraph: &mut EGraph<L, SynthAnalysis>, matched_id: Id, subst: &Subst,
        _ast: Option<&PatternAst<L>>, _sym: Symbol) -> Vec<Id> {
        if egraph[matched_id].data.is_defined() {
            let id = instantiate_rhs(self.rhs.ast.as_ref(), egraph, subst);
            if id != matched_id && egraph[id].data.is_defined() {
                egraph.union(id, matched_id);
                return vec![id];
            }
        }
        vec![]
    }
}
fn instantiate_rhs<L: Language, A: Analysis<L>>(pat: &[ENodeOrVar<L>], egraph: &mut EGraph<L, A>, subst: &Subst) -> Id {
    let mut ids = vec![0.into(); pat.len()];
    for (i, n) in pat.iter().enumerate() {
        ids[i] = match n {
            ENodeOrVar::Var(w) => subst[*w],
            ENodeOrVar::ENode(e) => egraph.add(e.clone().map_children(|c| ids[usize::from(c)])),
        };
    }
    *ids.last().unwrap()
}

pub fn Rule__new<L: SynthLanguage>(l: &EPat<L>, r: &EPat<L>) -> Option<Rule<L>> {
    let name = format!("{} ==> {}", l, r);
    match Rewrite::new(name.clone(), l.clone(), Rhs { rhs: r.clone() }) {
        Ok(rewrite) => Some(Rule { name: name.into(), lhs: l.clone(), rhs: r.clone(), rewrite }),
        Err(_) => None,
    }
}
pub fn Rule__from_string<L: SynthLanguage>(s: &str) -> Result<(Rule<L>, Option<Rule<L>>), String> {
    match s.split_once("=>") {
        None => Err(format!("Failed to parse {}", s)),
        Some((l, r)) => {
            let l: EPat<L> = l.parse().unwrap();
            let r: EPat<L> = r.parse().unwrap();
            let f = directed(&l, &r);
            Ok((f, if s.contains("<=>") { Some(directed(&r, &l)) } else { None }))
        }
    }
}
fn directed<L: SynthLanguage>(l: &EPat<L>, r: &EPat<L>) -> Rule<L> {
    let name = format!("{} ==> {}", l, r);
    Rule {
        rewrite: Rewrite::new(name.clone(), l.clone(), Rhs { rhs: r.clone() }).unwrap(),
        name: name.into(),
        lhs: l.clone(),
        rhs: r.clone(),
    }
}
pub fn Rule__fmt<L: SynthLanguage>(r: &Rule<L>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{} ==> {}", r.lhs, r.rhs)
}
pub fn Rule__is_valid<L: SynthLanguage>(r: &Rule<L>) -> bool {
    match L::validate(&r.lhs, &r.rhs) {
        ValidationResult::Valid => true,
        ValidationResult::Invalid => false,
        ValidationResult::Unknown => false,
    }
}
pub fn Rule__score<L: SynthLanguage>(r: &Rule<L>) -> impl Ord + std::fmt::Debug {
    L::score(&r.lhs, &r.rhs)
}
pub fn Rule__is_saturating<L: SynthLanguage>(r: &Rule<L>) -> bool {
    let mut eg: EGraph<L, SynthAnalysis> = EGraph::default();
    let l = eg.add_expr(&L::instantiate(&r.lhs));
    let before = eg.number_of_classes();
    let rr = eg.add_expr(&L::instantiate(&r.rhs));
    eg.union(l, rr);
    eg.rebuild();
    eg.number_of_classes() <= before
}

// ---- sets of rules ----------------------------------------------------------------------------
type Map<L> = IndexMap<Arc<str>, Rule<L>>;

pub fn Ruleset__eq<L: SynthLanguage>(a: &Ruleset<L>, b: &Ruleset<L>) -> bool {
    a.0.len() == b.0.len() && a.0.iter().zip(b.0.iter()).all(|(x, y)| x.0 == y.0)
}
pub fn Ruleset__default<L: SynthLanguage>() -> Ruleset<L> {
    Ruleset(IndexMap::default())
}
pub fn Ruleset__new<L: SynthLanguage, I>(vals: I) -> Ruleset<L>
where I: IntoIterator, I::Item: AsRef<str> {
    let mut m: Map<L> = IndexMap::default();
    for v in vals {
        if let Ok((f, b)) = Rule::from_string(v.as_ref()) {
            m.insert(f.name.clone(), f);
            if let Some(b) = b {
                m.insert(b.name.clone(), b);
            }
        }
    }
    Ruleset(m)
}
pub fn Ruleset__union<L: SynthLanguage>(a: &Ruleset<L>, b: &Ruleset<L>) -> Ruleset<L> {
    let mut m = a.0.clone();
    for (k, v) in b.0.clone() {
        m.insert(k, v);
    }
    Ruleset(m)
}
pub fn Ruleset__to_str_vec<L: SynthLanguage>(a: &Ruleset<L>) -> Vec<String> {
    a.0.iter().map(|(k, _)| k.to_string()).collect()
}
pub fn Ruleset__is_empty<L: SynthLanguage>(a: &Ruleset<L>) -> bool {
    a.0.len() == 0
}
pub fn Ruleset__len<L: SynthLanguage>(a: &Ruleset<L>) -> usize {
    a.0.len()
}
pub fn Ruleset__bidir_len<L: SynthLanguage>(a: &Ruleset<L>) -> usize {
    let mut both = 0;
    let mut one = 0;
    for r in a.0.values() {
        match Rule::new(&r.rhs, &r.lhs) {
            Some(rev) if a.0.contains_key(&rev.name) => both += 1,
            _ => one += 1,
        }
    }
    one + both / 2
}
pub fn Ruleset__contains<L: SynthLanguage>(a: &Ruleset<L>, r: &Rule<L>) -> bool {
    a.0.contains_key(&r.name)
}
pub fn Ruleset__add<L: SynthLanguage>(a: &mut Ruleset<L>, r: Rule<L>) {
    a.0.insert(r.name.clone(), r);
}
pub fn Ruleset__add_all<L: SynthLanguage>(a: &mut Ruleset<L>, rs: Vec<&Rule<L>>) {
    for r in rs {
        a.0.insert(r.name.clone(), r.clone());
    }
}
pub fn Ruleset__remove_all<L: SynthLanguage>(a: &mut Ruleset<L>, b: Ruleset<L>) {
    for (k, _) in b.0 {
        a.0.remove(&k);
    }
}
pub fn Ruleset__extend<L: SynthLanguage>(a: &mut Ruleset<L>, b: Ruleset<L>) {
    for (k, v) in b.0 {
        a.0.insert(k, v);
    }
}
pub fn Ruleset__partition<L: SynthLanguage, F: Fn(&Rule<L>) -> bool + Sync>(a: &Ruleset<L>, f: F) -> (Ruleset<L>, Ruleset<L>) {
    let mut yes: Map<L> = IndexMap::default();
    let mut no: Map<L> = IndexMap::default();
    for r in a.0.values() {
        if f(r) {
            yes.insert(r.name.clone(), r.clone());
        } else {
            no.insert(r.name.clone(), r.clone());
        }
    }
    (Ruleset(yes), Ruleset(no))
}
pub fn Ruleset__pretty_print<L: SynthLanguage>(a: &Ruleset<L>) {
    let mut strs = vec![];
    for (name, rule) in &a.0 {
        let reverse = Rule::new(&rule.rhs, &rule.lhs);
        if reverse.is_some() && a.contains(&reverse.unwrap()) {
            let reverse_name = format!("{} <=> {}", rule.rhs, rule.lhs);
            if !strs.contains(&reverse_name) {
                strs.push(format!("{} <=> {}", rule.lhs, rule.rhs));
            }
        } else {
            strs.push(name.to_string());
        }
    }
    for s in strs {
        println!("{}", s);
    }
}

// ---- candidates -------------------------------------------------------------------------------
fn add_pair<L: SynthLanguage>(c: &mut Ruleset<L>, e1: &RecExpr<L>, e2: &RecExpr<L>) {
    let mut vars = HashMap::default();
    let l = L::generalize(e1, &mut vars);
    let r = L::generalize(e2, &mut vars);
    for rule in [Rule::new(&l, &r), Rule::new(&r, &l)] {
        if let Some(rule) = rule {
            c.0.insert(rule.name.clone(), rule);
        }
    }
}
pub fn Ruleset__add_from_recexprs<L: SynthLanguage>(c: &mut Ruleset<L>, e1: &RecExpr<L>, e2: &RecExpr<L>) {
    let vars = &mut HashMap::default();
    let l = L::generalize(e1, vars);
    let r = L::generalize(e2, vars);
    let f = Rule::new(&l, &r);
    let b = Rule::new(&r, &l);
    if let Some(f) = f {
        c.0.insert(f.name.clone(), f);
    }
    if let Some(b) = b {
        c.0.insert(b.name.clone(), b);
    }
}
pub fn Ruleset__extract_candidates<L: SynthLanguage>(eg1: &EGraph<L, SynthAnalysis>, eg2: &EGraph<L, SynthAnalysis>) -> Ruleset<L> {
    let mut out = Ruleset(IndexMap::default());
    let mut merged: HashMap<Id, Vec<Id>> = HashMap::default();
    for c in eg1.classes() {
        merged.entry(eg2.find(c.id)).or_default().push(c.id);
    }
    let ex = Extractor::new(eg1, ExtractableAstSize);
    for group in merged.values() {
        for a in group {
            for b in group {
                let (ca, ea) = ex.find_best(*a);
                let (cb, eb) = ex.find_best(*b);
                if ca != usize::MAX && cb != usize::MAX && ea != eb {
                    Ruleset__add_from_recexprs(&mut out, &ea, &eb);
                }
            }
        }
    }
    out
}
pub fn Ruleset__fast_cvec_match<L: SynthLanguage>(egraph: &EGraph<L, SynthAnalysis>) -> Ruleset<L> {
    let mut groups: IndexMap<&CVec<L>, Vec<Id>> = IndexMap::default();
    for c in egraph.classes() {
        if c.data.is_defined() {
            groups.entry(&c.data.cvec).or_default().push(c.id);
        }
    }
    let mut out = Ruleset(IndexMap::default());
    let ex = Extractor::new(egraph, AstSize);
    for ids in groups.values() {
        let es: Vec<RecExpr<L>> = ids.iter().map(|id| ex.find_best(*id).1).collect();
        for (i, e1) in es.iter().enumerate() {
            for e2 in &es[i + 1..] {
                Ruleset__add_from_recexprs(&mut out, e1, e2);
            }
        }
    }
    out
}
fn cvecs_match<L: SynthLanguage>(a: &CVec<L>, b: &CVec<L>) -> bool {
    let conflict = a.iter().zip(b).any(|p| match p {
        (Some(x), Some(y)) => x != y,
        _ => false,
    });
    if conflict {
        return false;
    }
    a.iter().zip(b).any(|p| match p {
        (Some(x), Some(y)) => x == y,
        _ => false,
    })
}
pub fn Ruleset__cvec_match<L: SynthLanguage>(egraph: &EGraph<L, SynthAnalysis>) -> Ruleset<L> {
    let some_value: Vec<&EClass<L, Signature<L>>> =
        egraph.classes().filter(|c| c.data.cvec.iter().any(|v| v.is_some())).collect();
    let mut by_first: IndexMap<Option<L::Constant>, Vec<Id>> = IndexMap::default();
    for c in &some_value {
        by_first.entry(c.data.cvec[0].clone()).or_default().push(c.id);
    }
    let none_first = match by_first.get(&None) {
        Some(v) => v.clone(),
        None => vec![],
    };
    let ex = Extractor::new(egraph, AstSize);
    let mut out = Ruleset(IndexMap::default());
    for (first, ids) in by_first {
        let mut group = ids.clone();
        if first.is_some() {
            group.extend(none_first.clone());
        }
        for i in 0..group.len() {
            for j in i + 1..group.len() {
                let a = &egraph[group[i]];
                let b = &egraph[group[j]];
                if cvecs_match::<L>(&a.data.cvec, &b.data.cvec) {
                    Ruleset__add_from_recexprs(&mut out, &ex.find_best(a.id).1, &ex.find_best(b.id).1);
                }
            }
        }
    }
    out
}

// ---- selection --------------------------------------------------------------------------------
pub fn Ruleset__minimize<L: SynthLanguage>(this: &mut Ruleset<L>, prior: Ruleset<L>, scheduler: Scheduler) -> (Ruleset<L>, Ruleset<L>) {
    let mut invalid: Ruleset<L> = Ruleset(IndexMap::default());
    let mut chosen = prior.clone();
    while !this.0.is_empty() {
        // take the best candidate (and its reverse), keep what the validator accepts
        let mut picked: Ruleset<L> = Ruleset(IndexMap::default());
        this.0.sort_by(|_, a, _, b| a.score().cmp(&b.score()));
        while picked.0.len() < 1 {
            match this.0.pop() {
                None => break,
                Some((_, rule)) => {
                    if rule.is_valid() {
                        picked.0.insert(rule.name.clone(), rule.clone());
                    } else {
                        invalid.0.insert(rule.name.clone(), rule.clone());
                    }
                    if let Some(rev) = Rule::new(&rule.rhs, &rule.lhs) {
                        if this.0.contains_key(&rev.name) {
                            if rev.is_valid() {
                                picked.0.insert(rev.name.clone(), rev);
                            } else {
                                invalid.0.insert(rev.name.clone(), rev);
                            }
                        }
                    }
                }
            }
        }
        let mut sel: Ruleset<L> = Ruleset(IndexMap::default());
        sel.0.extend(picked.0);
        chosen.0.extend(sel.0.clone());
        // drop the candidates that what we have now derives
        let mut eg: EGraph<L, SynthAnalysis> = EGraph::default();
        let mut roots = vec![];
        for r in this.0.values() {
            let l = eg.add_expr(&L::instantiate(&r.lhs));
            let rr = eg.add_expr(&L::instantiate(&r.rhs));
            roots.push((l, rr, r.clone()));
        }
        let eg = scheduler.run(&eg, &chosen);
        this.0 = IndexMap::default();
        for (l, r, rule) in roots {
            if eg.find(l) != eg.find(r) {
                this.0.insert(rule.name.clone(), rule);
            }
        }
    }
    for (k, _) in prior.0 {
        chosen.0.remove(&k);
    }
    (chosen, invalid)
}

pub fn Ruleset__can_derive<L: SynthLanguage>(this: &Ruleset<L>, derive_type: DeriveType, rule: &Rule<L>, limits: Limits) -> bool {
    let l = L::instantiate(&rule.lhs);
    let r = L::instantiate(&rule.rhs);
    let mut eg: EGraph<L, SynthAnalysis> = EGraph::default();
    eg.add_expr(&l);
    if let DeriveType::LhsAndRhs = derive_type {
        eg.add_expr(&r);
    }
    let out = Scheduler::Saturating(limits).run_derive(&eg, this, rule);
    let li = match out.lookup_expr(&l) {
        Some(i) => i,
        None => panic!(),
    };
    match out.lookup_expr(&r) {
        Some(ri) => li == ri,
        None => false,
    }
}
pub fn Ruleset__derive<L: SynthLanguage>(this: &Ruleset<L>, derive_type: DeriveType, against: &Ruleset<L>, limits: Limits) -> (Ruleset<L>, Ruleset<L>) {
    against.partition(|r| this.can_derive(derive_type, r, limits))
}
