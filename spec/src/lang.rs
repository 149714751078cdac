use egg::{Analysis, AstSize, CostFunction, DidMerge, ENodeOrVar, Language, PatternAst, RecExpr};
use ruler::enumo::{Filter, Metric, Rule, Ruleset, Scheduler, Workload};
use ruler::*;

pub fn Signature__is_defined<L: SynthLanguage>(s: &Signature<L>) -> bool {
    s.cvec.len() == 0 || s.cvec.iter().any(|x| x.is_some())
}
pub fn SynthAnalysis__default() -> SynthAnalysis {
    SynthAnalysis { cvec_len: 0 }
}
pub fn SynthAnalysis__make<L: SynthLanguage>(egraph: &EGraph<L, SynthAnalysis>, enode: &L) -> Signature<L> {
    let simplest = if enode.is_var() || enode.is_constant() {
        let mut r = RecExpr::<L>::default();
        r.add(enode.clone());
        r
    } else {
        let mut nodes: Vec<L> = vec![];
        let mut roots: HashMap<Id, Id> = HashMap::default();
        enode.for_each(|id| {
            if roots.get(&id).is_none() {
                let s = &egraph[id].data.simplest;
                let base = nodes.len();
                for n in s.as_ref() {
                    nodes.push(n.clone().map_children(|c| Id::from(usize::from(c) + base)));
                }
                roots.insert(id, Id::from(nodes.len() - 1));
            }
        });
        nodes.push(enode.clone().map_children(|id| *roots.get(&id).unwrap()));
        RecExpr::from(nodes)
    };
    Signature {
        cvec: enode.eval(egraph.analysis.cvec_len, |id: &Id| &egraph[*id].data.cvec),
        interval: enode.mk_interval(|id: &Id| &egraph[*id].data.interval),
        simplest,
    }
}
fn tighter_low<T: Ord + Clone>(a: &Option<T>, b: &Option<T>) -> Option<T> {
    match (a.as_ref(), b.as_ref()) {
        (None, None) => None,
        (None, Some(y)) => Some(y.clone()),
        (Some(x), None) => Some(x.clone()),
        (Some(x), Some(y)) => Some(x.max(y).clone()),
    }
}
fn tighter_high<T: Ord + Clone>(a: &Option<T>, b: &Option<T>) -> Option<T> {
    match (a.as_ref(), b.as_ref()) {
        (None, None) => None,
        (None, Some(y)) => Some(y.clone()),
        (Some(x), None) => Some(x.clone()),
        (Some(x), Some(y)) => Some(x.min(y).clone()),
    }
}
pub fn SynthAnalysis__merge<L: SynthLanguage>(_s: &mut SynthAnalysis, to: &mut Signature<L>, from: Signature<L>) -> DidMerge {
    let mut a = false;
    let mut b = false;
    if to.cvec.len() != 0 && from.cvec.len() != 0 {
        for i in 0..to.cvec.len() {
            match (to.cvec[i].clone(), from.cvec[i].clone()) {
                (None, None) => {}
                (None, Some(_)) => {
                    to.cvec[i] = from.cvec[i].clone();
                    a = true;
                }
                (Some(_), None) => b = true,
                (Some(x), Some(y)) => {
                    if x != y {
                        panic!()
                    }
                }
            }
        }
    }
    let low = tighter_low(&to.interval.low, &from.interval.low);
    let high = tighter_high(&to.interval.high, &from.interval.high);
    let interval = Interval::new(low, high);
    if ExtractableAstSize.cost_rec(&from.simplest) < ExtractableAstSize.cost_rec(&to.simplest) {
        to.simplest = from.simplest;
        a = true;
    } else if to.simplest != from.simplest {
        b = true;
    }
    if to.interval != interval {
        a = true;
        to.interval = interval;
    }
    if to.interval != from.interval {
        b = true;
    }
    DidMerge(a, b)
}
pub fn SynthAnalysis__modify<L: SynthLanguage>(egraph: &mut EGraph<L, SynthAnalysis>, id: Id) {
    L::custom_modify(egraph, id);
    let interval = egraph[id].data.interval.clone();
    if let (Some(low), Some(high)) = (interval.low, interval.high) {
        if low == high {
            let n = L::mk_constant(low, egraph);
            let c = egraph.add(n);
            egraph.union(id, c);
        }
    }
}

// ---- defaults of the language trait -------------------------------------------------------------
pub fn SynthLanguage__is_var<L: SynthLanguage>(n: &L) -> bool {
    n.to_var().is_some()
}
pub fn SynthLanguage__to_enode_or_var<L: SynthLanguage>(n: L) -> ENodeOrVar<L> {
    match n.to_var() {
        Some(v) => ENodeOrVar::Var(format!("?{}", v).parse().unwrap()),
        None => ENodeOrVar::ENode(n),
    }
}
pub fn SynthLanguage__custom_modify<L: SynthLanguage>(_egraph: &mut EGraph<L, SynthAnalysis>, _id: Id) {}
pub fn SynthLanguage__is_allowed_op<L: SynthLanguage>(_n: &L) -> bool {
    true
}
pub fn SynthLanguage__is_fast_forwarding() -> bool {
    false
}
fn extractable<L: SynthLanguage>(p: &Pattern<L>) -> bool {
    for n in p.ast.as_ref() {
        if let ENodeOrVar::ENode(n) = n {
            if !n.is_allowed_op() {
                return false;
            }
        }
    }
    true
}
pub fn SynthLanguage__is_allowed_rewrite<L: SynthLanguage>(lhs: &Pattern<L>, rhs: &Pattern<L>) -> bool {
    extractable(lhs) && extractable(rhs)
}
pub fn SynthLanguage__generalize<L: SynthLanguage>(expr: &RecExpr<L>, map: &mut HashMap<Symbol, Var>) -> Pattern<L> {
    let mut rename_node = |node: &L| match node.to_var() {
        Some(sym) => {
            let len = map.len();
            let var = map.entry(sym).or_insert_with(|| format!("?{}", letter(len)).parse().unwrap());
            let s = var.to_string();
            L::mk_var(s[1..].into())
        }
        None => node.clone(),
    };
    let root = rename_node(expr.as_ref().last().unwrap());
    let expr = root.build_recexpr(|id| rename_node(&expr[id]));
    let nodes: Vec<ENodeOrVar<L>> = expr.as_ref().iter().map(|n| n.clone().to_enode_or_var()).collect();
    PatternAst::from(nodes).into()
}
pub fn SynthLanguage__instantiate<L: SynthLanguage>(pattern: &Pattern<L>) -> RecExpr<L> {
    let mut nodes: Vec<L> = vec![];
    for n in pattern.ast.as_ref() {
        nodes.push(match n {
            ENodeOrVar::ENode(n) => n.clone(),
            ENodeOrVar::Var(v) => {
                let s = v.to_string();
                if !s.starts_with('?') {
                    panic!()
                }
                L::mk_var(s[1..].into())
            }
        });
    }
    RecExpr::from(nodes)
}
pub fn SynthLanguage__score<L: SynthLanguage>(lhs: &Pattern<L>, rhs: &Pattern<L>) -> [i32; 5] {
    let l = AstSize.cost_rec(&lhs.ast) as i32;
    let r = AstSize.cost_rec(&rhs.ast) as i32;
    let mut vars: HashSet<Var> = Default::default();
    vars.extend(lhs.vars());
    vars.extend(rhs.vars());
    let mut ops: HashSet<String> = Default::default();
    for n in lhs.ast.as_ref().iter().chain(rhs.ast.as_ref()) {
        if !n.is_leaf() {
            ops.insert(n.to_string());
        }
    }
    let consts = lhs.ast.as_ref().iter().chain(rhs.ast.as_ref()).filter(|n| match n {
        ENodeOrVar::ENode(n) => n.is_constant(),
        ENodeOrVar::Var(_) => false,
    }).count() as i32;
    [vars.len() as i32, -consts, -i32::max(l, r), -(l + r), -(ops.len() as i32)]
}

// ---- helpers ------------------------------------------------------------------------------------
pub fn util__letter(i: usize) -> &'static str {
    let alpha = "abcdefghijklmnopqrstuvwxyz";
    &alpha[i..i + 1]
}
pub fn util__self_product<T: Clone>(ts: &[T], n: usize) -> Vec<Vec<T>> {
    let k = ts.len();
    let rows = k.pow(n as u32);
    let mut res = vec![];
    for i in 0..n {
        let mut entry = vec![];
        while entry.len() < rows {
            for c in ts {
                for _ in 0..k.pow(i as u32) {
                    entry.push(c.clone());
                }
            }
        }
        res.push(entry);
    }
    res
}
