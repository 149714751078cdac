use egg::{ENodeOrVar, RecExpr};
use ruler::enumo::*;
use ruler::enumo::Pattern;
use ruler::{EGraph, HashMap, SynthAnalysis, SynthLanguage};

// ---- terms --------------------------------------------------------------------------------------
pub fn Sexp__from_symbolic_expr(s: symbolic_expressions::Sexp) -> Sexp {
    match s {
        symbolic_expressions::Sexp::String(s) => Sexp::Atom(s),
        symbolic_expressions::Sexp::List(ss) => {
            let mut out = vec![];
            for s in ss.iter() {
                out.push(Sexp__from_symbolic_expr(s.clone()));
            }
            Sexp::List(out)
        }
        symbolic_expressions::Sexp::Empty => Sexp::List(vec![]),
    }
}
pub fn Sexp__from_str(s: &str) -> Result<Sexp, String> {
    Ok(Sexp__from_symbolic_expr(symbolic_expressions::parser::parse_str(s).unwrap()))
}
pub fn Sexp__fmt(this: &Sexp, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this {
        Sexp::Atom(x) => write!(f, "{}", x),
        Sexp::List(l) => {
            write!(f, "(").expect("not written");
            for x in l {
                write!(f, "{} ", x).expect("not written");
            }
            write!(f, ")").expect("not written");
            Ok(())
        }
    }
}
pub fn Sexp__measure(this: &Sexp, metric: Metric) -> usize {
    match (this, metric) {
        (Sexp::Atom(_), Metric::Atoms) => 1,
        (Sexp::Atom(_), Metric::Lists) => 0,
        (Sexp::Atom(_), Metric::Depth) => 1,
        (Sexp::List(s), Metric::Atoms) => s.iter().map(|x| Sexp__measure(x, metric)).sum::<usize>(),
        (Sexp::List(s), Metric::Lists) => s.iter().map(|x| Sexp__measure(x, metric)).sum::<usize>() + 1,
        (Sexp::List(s), Metric::Depth) => s.iter().map(|x| Sexp__measure(x, metric)).max().unwrap_or(0) + 1,
    }
}
pub fn Sexp__plug(this: &Sexp, name: &str, pegs: &[Sexp]) -> Vec<Sexp> {
    use itertools::Itertools;
    match this {
        Sexp::Atom(s) => if s == name { pegs.to_vec() } else { vec![this.clone()] },
        Sexp::List(xs) => {
            if xs.len() == 0 {
                return vec![this.clone()];
            }
            xs.iter().map(|x| Sexp__plug(x, name, pegs)).multi_cartesian_product().map(Sexp::List).collect()
        }
    }
}
pub fn Sexp__mk_canon(this: &Sexp, symbols: &[String], mut idx: usize, mut subst: HashMap<String, String>) -> (HashMap<String, String>, usize) {
    match this {
        Sexp::Atom(x) => {
            if symbols.contains(x) {
                if !subst.contains_key(x) {
                    subst.insert(x.into(), symbols[idx].clone());
                    idx += 1;
                }
            }
            (subst, idx)
        }
        Sexp::List(xs) => {
            let mut acc = (subst, idx);
            for x in xs.iter() {
                acc = Sexp__mk_canon(x, symbols, acc.1, acc.0);
            }
            acc
        }
    }
}
pub fn Sexp__apply_subst(this: &Sexp, subst: &HashMap<String, String>) -> Sexp {
    match this {
        Sexp::Atom(s) => match subst.get(s) {
            Some(v) => Sexp::Atom(v.into()),
            None => Sexp::Atom(s.into()),
        },
        Sexp::List(xs) => {
            let mut out = vec![];
            for x in xs.iter() {
                out.push(Sexp__apply_subst(x, subst));
            }
            Sexp::List(out)
        }
    }
}
pub fn Sexp__canon(this: &Sexp, symbols: &[String]) -> Sexp {
    let (subst, _) = Sexp__mk_canon(this, symbols, 0, Default::default());
    Sexp__apply_subst(this, &subst)
}

// ---- filters ------------------------------------------------------------------------------------
pub fn Filter__test(this: &Filter, sexp: &Sexp) -> bool {
    match this {
        Filter::MetricLt(m, n) => Sexp__measure(sexp, *m) < *n,
        Filter::MetricEq(m, n) => Sexp__measure(sexp, *m) == *n,
        Filter::Contains(p) => {
            if Pattern__matches(p, sexp) {
                return true;
            }
            match sexp {
                Sexp::Atom(_) => false,
                Sexp::List(xs) => xs.iter().any(|x| Filter__test(this, x)),
            }
        }
        Filter::Excludes(p) => !Filter__test(&Filter::Contains(p.clone()), sexp),
        Filter::Canon(syms) => *sexp == Sexp__canon(sexp, syms),
        Filter::And(fs) => fs.iter().all(|f| Filter__test(f, sexp)),
        Filter::Or(fs) => fs.iter().any(|f| Filter__test(f, sexp)),
        Filter::Invert(f) => !Filter__test(f, sexp),
    }
}
pub fn Filter__subsumed_by(this: &Filter, fs: &Vec<Filter>) -> bool {
    match this {
        Filter::MetricLt(m, n) => fs.iter().any(|f| match f {
            Filter::MetricLt(m1, n1) => m == m1 && n1 <= n,
            _ => false,
        }),
        _ => false,
    }
}
pub fn Filter__and(this: Filter, other: Filter) -> Filter {
    let all = match (this, other) {
        (Filter::And(a), Filter::And(b)) => {
            let mut v = a;
            v.extend(b);
            v
        }
        (Filter::And(a), f) => {
            let mut v = a;
            v.push(f);
            v
        }
        (f, Filter::And(b)) => {
            let mut v = b;
            v.push(f);
            v
        }
        (f, g) => vec![f, g],
    };
    let mut kept = vec![];
    for f in all {
        if !Filter__subsumed_by(&f, &kept) {
            kept.push(f);
        }
    }
    Filter::And(kept)
}
pub fn Filter__is_monotonic(this: &Filter) -> bool {
    match this {
        Filter::MetricLt(..) => true,
        Filter::Excludes(_) => true,
        Filter::And(fs) => fs.iter().all(|f| Filter__is_monotonic(f)),
        Filter::MetricEq(..) => false,
        Filter::Contains(_) => false,
        Filter::Canon(_) => false,
        Filter::Or(_) => false,
        Filter::Invert(_) => false,
    }
}

// ---- patterns -----------------------------------------------------------------------------------
pub fn Pattern__from_symbolic_expr(s: symbolic_expressions::Sexp) -> Pattern {
    match s {
        symbolic_expressions::Sexp::String(s) => {
            if s == "*" {
                Pattern::Wild
            } else if s.starts_with('?') {
                Pattern::Var(s)
            } else {
                Pattern::Lit(s)
            }
        }
        symbolic_expressions::Sexp::List(ss) => {
            let mut out = vec![];
            for s in ss.iter() {
                out.push(Pattern__from_symbolic_expr(s.clone()));
            }
            Pattern::List(out)
        }
        symbolic_expressions::Sexp::Empty => Pattern::List(vec![]),
    }
}
pub fn Pattern__from_str(s: &str) -> Result<Pattern, String> {
    Ok(Pattern__from_symbolic_expr(symbolic_expressions::parser::parse_str(s).unwrap()))
}
pub fn Pattern__matches(this: &Pattern, sexp: &Sexp) -> bool {
    Pattern__matches_with(this, sexp, Default::default()).is_some()
}
pub fn Pattern__matches_with(this: &Pattern, sexp: &Sexp, mut subst: HashMap<String, Sexp>) -> Option<HashMap<String, Sexp>> {
    match this {
        Pattern::Wild => Some(subst),
        Pattern::Var(v) => {
            match subst.get(v) {
                Some(x) => if x == sexp { Some(subst) } else { None },
                None => {
                    subst.insert(v.clone(), sexp.clone());
                    Some(subst)
                }
            }
        }
        Pattern::Lit(l) => match sexp {
            Sexp::Atom(a) if a == l => Some(subst),
            _ => None,
        },
        Pattern::List(ps) => match sexp {
            Sexp::List(xs) if xs.len() == ps.len() => {
                let mut acc = Some(subst);
                for (p, x) in ps.iter().zip(xs.iter()) {
                    acc = match acc {
                        Some(s) => Pattern__matches_with(p, x, s),
                        None => None,
                    };
                }
                acc
            }
            _ => None,
        },
    }
}

// ---- workloads ----------------------------------------------------------------------------------
pub fn Workload__default() -> Workload {
    Workload::Set(vec![])
}
pub fn Workload__empty() -> Workload {
    Workload::Set(vec![])
}
pub fn Workload__new<I>(vals: I) -> Workload
where I: IntoIterator, I::Item: AsRef<str> {
    let mut out: Vec<Sexp> = vec![];
    for x in vals {
        out.push(x.as_ref().parse().unwrap());
    }
    Workload::Set(out)
}
pub fn Workload__from(v: &[&str]) -> Workload {
    Workload::new(v.iter().copied())
}
pub fn Workload__force(this: &Workload) -> Vec<Sexp> {
    match this {
        Workload::Set(s) => s.clone(),
        Workload::Plug(w, name, pegs) => {
            let pegs = Workload__force(pegs);
            let mut out = vec![];
            for s in Workload__force(w) {
                for t in Sexp__plug(&s, name, &pegs) {
                    out.push(t);
                }
            }
            out
        }
        Workload::Filter(f, w) => {
            let mut out = vec![];
            for s in Workload__force(w) {
                if Filter__test(f, &s) {
                    out.push(s);
                }
            }
            out
        }
        Workload::Append(ws) => {
            let mut out = vec![];
            for w in ws {
                for s in Workload__force(w) {
                    out.push(s);
                }
            }
            out
        }
    }
}
pub fn Workload__plug(this: Workload, name: impl Into<String>, w: &Workload) -> Workload {
    if let Workload::Set(xs) = w {
        if xs.len() == 0 {
            return this.filter(Filter::Excludes(Pattern::Lit(name.into())));
        }
    }
    Workload::Plug(Box::new(this), name.into(), Box::new(w.clone()))
}
pub fn Workload__append(this: Workload, w: impl Into<Workload>) -> Workload {
    match (this, w.into()) {
        (Workload::Set(a), Workload::Set(b)) => {
            let mut v = a;
            v.extend(b);
            Workload::Set(v)
        }
        (Workload::Append(a), Workload::Append(b)) => {
            let mut v = a;
            v.extend(b);
            Workload::Append(v)
        }
        (Workload::Append(a), y) => {
            let mut v = a;
            v.push(y);
            Workload::Append(v)
        }
        (x, Workload::Append(b)) => {
            let mut v = b;
            v.push(x);
            Workload::Append(v)
        }
        (x, y) => Workload::Append(vec![x, y]),
    }
}
pub fn Workload__filter(this: Workload, filter: Filter) -> Workload {
    match this {
        Workload::Plug(w, name, pegs) => {
            if Filter__is_monotonic(&filter) {
                Workload::Filter(filter.clone(),
                    Box::new(Workload::Plug(w, name, Box::new(Workload__filter(*pegs, filter)))))
            } else {
                Workload::Filter(filter, Box::new(Workload::Plug(w, name, pegs)))
            }
        }
        Workload::Filter(f, w) => Workload__filter(*w, Filter__and(f, filter)),
        w => Workload::Filter(filter, Box::new(w)),
    }
}
pub fn Workload__to_egraph<L: SynthLanguage>(this: &Workload) -> EGraph<L, SynthAnalysis> {
    let mut eg = EGraph::default();
    let sexps = this.force();
    let mut vars: Vec<String> = vec![];
    for s in &sexps {
        let e: RecExpr<L> = s.to_string().parse().unwrap();
        for n in e.as_ref() {
            if let ENodeOrVar::Var(v) = n.clone().to_enode_or_var() {
                let mut v = v.to_string();
                v.remove(0);
                if !vars.contains(&v) {
                    vars.push(v);
                }
            }
        }
    }
    L::initialize_vars(&mut eg, &vars);
    for s in &sexps {
        let e: RecExpr<L> = s.to_string().parse().unwrap();
        eg.add_expr(&e);
    }
    eg
}
