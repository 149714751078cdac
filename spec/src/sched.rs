use egg::{Rewrite, Runner};
use ruler::enumo::*;
use ruler::*;
use std::time::Duration;

pub struct MatchScheduler {
    match_limit: usize,
}
impl<L: SynthLanguage> egg::RewriteScheduler<L, SynthAnalysis> for MatchScheduler {
    fn search_rewrite<'a>(&mut self, _iteration: usize, egraph: &egg::EGraph<L, SynthAnalysis>,
        rewrite: &'a Rewrite<L, SynthAnalysis>) -> Vec<egg::SearchMatches<'a, L>> {
        rewrite.search_with_limit(egraph, self.match_limit)
    }
}

fn runner<L: SynthLanguage>(eg: EGraph<L, SynthAnalysis>, limits: Limits, rule: Option<&Rule<L>>) -> Runner<L, SynthAnalysis> {
    let r = Runner::default()
        .with_scheduler(MatchScheduler { match_limit: limits.match_ })
        .with_node_limit(limits.node)
        .with_iter_limit(limits.iter)
        .with_time_limit(Duration::from_secs(600))
        .with_egraph(eg);
    match rule {
        None => r,
        Some(rule) => {
            let l = L::instantiate(&rule.lhs);
            let rr = L::instantiate(&rule.rhs);
            r.with_hook(move |x| {
                if let (Some(a), Some(b)) = (x.egraph.lookup_expr(&l), x.egraph.lookup_expr(&rr)) {
                    if a == b {
                        return Err("Done".to_owned());
                    }
                }
                Ok(())
            })
        }
    }
}

pub fn Scheduler__run_internal<L: SynthLanguage>(this: &Scheduler, egraph: &EGraph<L, SynthAnalysis>, ruleset: &Ruleset<L>,
    rule: Option<&Rule<L>>) -> EGraph<L, SynthAnalysis> {
    match this {
        Scheduler::Simple(limits) => {
            let mut r = runner(egraph.clone(), *limits, rule)
                .with_iter_limit(limits.iter)
                .with_node_limit(limits.node)
                .run(ruleset.0.values().map(|r| &r.rewrite));
            r.egraph.rebuild();
            r.egraph
        }
        Scheduler::Saturating(limits) => {
            let (sat, grow) = ruleset.partition(|r| r.is_saturating());
            let sat: Vec<Rewrite<L, SynthAnalysis>> = sat.0.values().map(|r| r.rewrite.clone()).collect();
            let grow: Vec<Rewrite<L, SynthAnalysis>> = grow.0.values().map(|r| r.rewrite.clone()).collect();
            let unbounded = Limits { iter: usize::MAX, node: usize::MAX, match_: limits.match_ };
            let once = Limits { iter: 1, node: limits.node, match_: limits.match_ };
            let mut cur = runner(egraph.clone(), *limits, rule);
            for _ in 0..limits.iter {
                cur = runner(cur.egraph, unbounded, rule).run(&sat);
                cur = runner(cur.egraph, once, rule).run(&grow);
            }
            let mut cur = runner(cur.egraph, unbounded, rule).run(&sat);
            cur.egraph.rebuild();
            cur.egraph
        }
        Scheduler::Compress(limits) => {
            let mut out = egraph.clone();
            let grown = Scheduler::Simple(*limits).run(egraph, ruleset);
            let mut same: HashMap<Id, Vec<Id>> = HashMap::default();
            for c in egraph.classes() {
                same.entry(grown.find(c.id)).or_default().push(c.id);
            }
            for ids in same.values() {
                if ids.len() > 1 {
                    let first = ids[0];
                    for id in &ids[1..] {
                        out.union(first, *id);
                    }
                }
            }
            out.rebuild();
            out
        }
    }
}
pub fn Scheduler__run<L: SynthLanguage>(this: &Scheduler, egraph: &EGraph<L, SynthAnalysis>, ruleset: &Ruleset<L>) -> EGraph<L, SynthAnalysis> {
    this.run_internal(egraph, ruleset, None)
}
pub fn Scheduler__run_derive<L: SynthLanguage>(this: &Scheduler, egraph: &EGraph<L, SynthAnalysis>, ruleset: &Ruleset<L>, rule: &Rule<L>) -> EGraph<L, SynthAnalysis> {
    this.run_internal(egraph, ruleset, Some(rule))
}
