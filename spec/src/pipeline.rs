use ruler::enumo::*;
use ruler::enumo::Pattern;
use ruler::recipe_utils::*;
use ruler::*;

pub fn recipe_utils__iter_metric(wkld: Workload, atom: &str, met: Metric, n: usize) -> Workload {
    let mut pegs = wkld.clone();
    for i in 1..(n + 1) {
        pegs = wkld.clone().plug(atom, &pegs).filter(Filter::MetricLt(met, i + 1));
    }
    pegs
}
pub fn recipe_utils__substitute(workload: Workload, sub: Workload, atom: &str) -> Workload {
    let mut out = Workload::Set(vec![]);
    for s in sub.force() {
        out = out.append(workload.clone().plug(atom, &Workload::Set(vec![s])));
    }
    out
}
pub fn recipe_utils__base_lang(n: usize) -> Workload {
    let mut vals = vec!["VAR".to_string(), "VAL".to_string()];
    for i in 1..(n + 1) {
        vals.push(format!("(OP{}{})", i, " EXPR".repeat(i)));
    }
    Workload::new(vals)
}
pub fn Lang__new(vals: &[&str], vars: &[&str], ops: &[&[&str]]) -> Lang {
    Lang {
        vals: vals.iter().map(|x| x.to_string()).collect(),
        vars: vars.iter().map(|x| x.to_string()).collect(),
        ops: ops.iter().map(|o| o.iter().map(|x| x.to_string()).collect()).collect(),
    }
}
fn infer<L: SynthLanguage>(workload: Workload, prior: Ruleset<L>, prior_limits: Limits, minimize_limits: Limits,
    fast_match: bool, allow_empty: bool) -> Ruleset<L> {
    let eg = workload.to_egraph::<L>();
    let eg = Scheduler::Compress(prior_limits).run(&eg, &prior);
    let mut candidates = if fast_match { Ruleset::fast_cvec_match(&eg) } else { Ruleset::cvec_match(&eg) };
    let (chosen, _) = candidates.minimize(prior, Scheduler::Compress(minimize_limits));
    if chosen.is_empty() && !allow_empty {
        panic!()
    }
    chosen
}
pub fn recipe_utils__run_workload<L: SynthLanguage>(workload: Workload, prior: Ruleset<L>, prior_limits: Limits,
    minimize_limits: Limits, fast_match: bool) -> Ruleset<L> {
    infer(workload, prior, prior_limits, minimize_limits, fast_match, false)
}
pub fn recipe_utils__run_fast_forwarding<L: SynthLanguage>(workload: Workload, prior: Ruleset<L>, prior_limits: Limits,
    minimize_limits: Limits) -> Ruleset<L> {
    let eg0 = workload.to_egraph::<L>();
    let (allowed, _) = prior.partition(|r| L::is_allowed_rewrite(&r.lhs, &r.rhs));
    let eg1 = Scheduler::Compress(prior_limits).run(&eg0, &allowed);
    let exploratory = L::get_exploratory_rules();
    let eg2 = Scheduler::Simple(prior_limits).run(&eg1, &exploratory);
    let mut candidates = Ruleset::extract_candidates(&eg1, &eg2);
    let mut all = prior.clone();
    all.extend(exploratory);
    let eg3 = Scheduler::Compress(prior_limits).run(&eg2, &all);
    candidates.extend(Ruleset::extract_candidates(&eg2, &eg3));
    candidates.minimize(prior, Scheduler::Compress(minimize_limits)).0
}
pub fn recipe_utils__recursive_rules<L: SynthLanguage>(metric: Metric, n: usize, lang: Lang, prior: Ruleset<L>) -> Ruleset<L> {
    if n < 1 {
        return Ruleset::default();
    }
    let mut rec = recipe_utils__recursive_rules(metric, n - 1, lang.clone(), prior.clone());
    let grammar = base_lang(lang.ops.len());
    let mut wkld = iter_metric(grammar, "EXPR", metric, n)
        .filter(Filter::Contains("VAR".parse().unwrap()))
        .plug("VAR", &Workload::new(lang.vars))
        .plug("VAL", &Workload::new(lang.vals));
    for (i, ops) in lang.ops.iter().enumerate() {
        wkld = wkld.plug(format!("OP{}", i + 1), &Workload::new(ops));
    }
    rec.extend(prior);
    let mut all = infer(wkld, rec.clone(), Limits::synthesis(), Limits::minimize(), true, n < 3);
    all.extend(rec);
    all
}
