#![allow(dead_code, unused_imports)]
use ruler::enumo::*;
use ruler::*;
use ruler::{EGraph, Pattern};
use egg::{Analysis, RecExpr};

egg::define_language! {
  pub enum Toy {
    "+" = Add([Id; 2]),
    "~" = Neg(Id),
    "/" = Div([Id; 2]),
    "hide" = Hide(Id),
    Lit(i64),
    Var(Symbol),
  }
}

impl Toy {
    fn value(e: &RecExpr<Toy>, env: &dyn Fn(Symbol) -> i64) -> Option<i64> {
        let mut out: Vec<Option<i64>> = vec![];
        for n in e.as_ref() {
            let g = |i: &Id| out[usize::from(*i)];
            let v = match n {
                Toy::Add([a, b]) => g(a).and_then(|a| g(b).map(|b| a.wrapping_add(b))),
                Toy::Neg(a) => g(a).map(|a| a.wrapping_neg()),
                Toy::Div([a, b]) => g(a).and_then(|a| g(b).and_then(|b| a.checked_div(b))),
                Toy::Hide(a) => g(a),
                Toy::Lit(c) => Some(*c),
                Toy::Var(v) => Some(env(*v)),
            };
            out.push(v);
        }
        *out.last().unwrap()
    }
}

impl SynthLanguage for Toy {
    type Constant = i64;
    fn eval<'a, F>(&'a self, cvec_len: usize, mut get_cvec: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        match self {
            Toy::Add([a, b]) => map!(get_cvec, a, b => Some(a.wrapping_add(*b))),
            Toy::Neg(a) => map!(get_cvec, a => Some(a.wrapping_neg())),
            Toy::Div([a, b]) => map!(get_cvec, a, b => a.checked_div(*b)),
            Toy::Hide(a) => map!(get_cvec, a => Some(*a)),
            Toy::Lit(c) => vec![Some(*c); cvec_len],
            Toy::Var(_) => vec![],
        }
    }
    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        egraph.analysis.cvec_len = 6;
        for (i, v) in vars.iter().enumerate() {
            let id = egraph.add(Toy::Var(Symbol::from(v.clone())));
            egraph[id].data.cvec = (0..6).map(|k| Some((k * (7 + 3 * i as i64)) % 11 - i as i64)).collect();
        }
    }
    fn to_var(&self) -> Option<Symbol> {
        if let Toy::Var(s) = self { Some(*s) } else { None }
    }
    fn mk_var(sym: Symbol) -> Self {
        Toy::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Toy::Lit(_))
    }
    fn mk_constant(c: i64, _egraph: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Toy::Lit(c)
    }
    fn is_allowed_op(&self) -> bool {
        !matches!(self, Toy::Hide(_))
    }
    // Undecided when a side mentions the literal 13; otherwise decided on sample points.
    fn validate(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> ValidationResult {
        let (l, r) = (Self::instantiate(lhs), Self::instantiate(rhs));
        if l.as_ref().iter().chain(r.as_ref()).any(|n| matches!(n, Toy::Lit(13))) {
            return ValidationResult::Unknown;
        }
        for k in 0..50i64 {
            let env = |s: Symbol| {
                let mut h = k.wrapping_mul(7919);
                for b in s.as_str().bytes() {
                    h = h.wrapping_mul(31).wrapping_add(b as i64 * (k + 1)) % 1009;
                }
                h
            };
            if Self::value(&l, &env) != Self::value(&r, &env) {
                return ValidationResult::Invalid;
            }
        }
        ValidationResult::Valid
    }
}

type EG = EGraph<Toy, SynthAnalysis>;
fn names(rs: &Ruleset<Toy>) -> Vec<String> {
    rs.to_str_vec()
}
fn lim() -> Limits {
    Limits { iter: 5, node: 10_000, match_: 10_000 }
}
