use ruler::enumo::*;
use ruler::*;

pub fn Limits__synthesis() -> Limits {
    Limits { iter: 2, node: 300_000, match_: 200_000 }
}
pub fn Limits__minimize() -> Limits {
    Limits { iter: 2, node: 300_000, match_: 200_000 }
}
pub fn Limits__deriving() -> Limits {
    Limits { iter: 5, node: 100_000, match_: 1000 }
}

pub fn Interval__new<T: Ord + std::fmt::Display>(low: Option<T>, high: Option<T>) -> Interval<T> {
    if low.is_some() && high.is_some() {
        if high.as_ref().unwrap() < low.as_ref().unwrap() {
            panic!()
        }
    }
    Interval { low, high }
}
pub fn Interval__default<T>() -> Interval<T> {
    Interval { low: None, high: None }
}

pub fn cost<L: SynthLanguage, C: FnMut(Id) -> usize>(_f: &mut ExtractableAstSize, enode: &L, mut costs: C) -> usize {
    if !enode.is_allowed_op() {
        return usize::MAX;
    }
    enode.fold(1, |acc: usize, child| acc.saturating_add(costs(child)))
}

pub fn Phase__fmt<L: SynthLanguage>(p: &Phase<L>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let s = match p.scheduler {
        Scheduler::Simple(_) => "eqsat",
        Scheduler::Saturating(_) => "sat",
        Scheduler::Compress(_) => "compress",
    };
    write!(f, "{} ({})", s, p.rules_name)
}
