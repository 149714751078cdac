"""Behaviour-preserving rewrites of the other files: every check must stay quiet on each."""
RS, RULE, SCHED, WK, SX, FI, PA = ("src/enumo/%s.rs" % x for x in (
    "ruleset", "rule", "scheduler", "workload", "sexp", "filter", "pattern"))
LIB, LANG, BVF, REC, LOG, UT = ("src/%s.rs" % x for x in ("lib", "language", "bv", "recipe_utils", "logger", "util"))
V = {}

# ---- workload.rs
V["wk-new-loop"] = [(WK, '''        Self::Set(
            vals.into_iter()
                .map(|x| x.as_ref().parse().unwrap())
                .collect(),
        )''', '''        let mut terms: Vec<Sexp> = Vec::new();
        for v in vals {
            terms.push(v.as_ref().parse().unwrap());
        }
        Workload::Set(terms)''')]
V["wk-empty-default"] = [(WK, '''    pub fn empty() -> Self {
        Self::Set(vec![])''', '''    pub fn empty() -> Self {
        Self::default()''')]
V["wk-default-empty"] = [(WK, '''    fn default() -> Self {
        Workload::Set(vec![])''', '''    fn default() -> Self {
        Workload::empty()''')]
V["wk-tofile-foreach"] = [(WK, '''        for name in &self.force() {
            writeln!(file, "{}", name).expect("Unable to write");
        }''', '''        let terms = self.force();
        terms
            .iter()
            .for_each(|t| writeln!(file, "{}", t).expect("Unable to write"));''')]
V["wk-tofile-forcefirst"] = [(WK, '''        for name in &self.force() {
            writeln!(file, "{}", name).expect("Unable to write");
        }''', '''        for name in self.force().into_iter() {
            if let Err(e) = writeln!(file, "{}", name) {
                panic!("Unable to write: {:?}", e);
            }
        }''')]
V["wk-tofile-match"] = [(WK, '''        let mut file = std::fs::File::create(filename)
            .unwrap_or_else(|_| panic!("Failed to open '{}'", filename));''', '''        let mut file = match std::fs::File::create(filename) {
            Ok(f) => f,
            Err(_) => panic!("Failed to open '{}'", filename),
        };''')]
V["wk-fromfile-map"] = [(WK, '''        let mut sexps = vec![];
        for line in std::io::BufRead::lines(reader) {
            sexps.push(line.unwrap().parse().unwrap());
        }
        Self::Set(sexps)''', '''        Self::Set(
            std::io::BufRead::lines(reader)
                .map(|line| line.unwrap().parse().unwrap())
                .collect(),
        )''')]
V["wk-fromfile-bind"] = [(WK, '''            sexps.push(line.unwrap().parse().unwrap());''', '''            let text = line.unwrap();
            let sexp: Sexp = text.parse().unwrap();
            sexps.push(sexp);''')]
V["wk-egraph-helper"] = [(WK, '''        let mut vars: Vec<String> = vec![];
        for sexp in sexps.iter() {
            let expr: RecExpr<L> = sexp.to_string().parse().unwrap();
            for node in expr.as_ref() {
                if let ENodeOrVar::Var(v) = node.clone().to_enode_or_var() {
                    let mut v = v.to_string();
                    v.remove(0);
                    if !vars.contains(&v) {
                        vars.push(v);
                    }
                }
            }
        }
        L::initialize_vars(&mut egraph, &vars);
''', '''        let vars = Self::collect_vars::<L>(&sexps);
        L::initialize_vars(&mut egraph, &vars);
'''), (WK, '''    /// Materialize workload into a vector of s-expressions''', '''    fn collect_vars<L: SynthLanguage>(sexps: &[Sexp]) -> Vec<String> {
        let mut vars: Vec<String> = vec![];
        for sexp in sexps {
            let expr: RecExpr<L> = sexp.to_string().parse().unwrap();
            for node in expr.as_ref().iter().cloned() {
                match node.to_enode_or_var() {
                    ENodeOrVar::Var(v) => {
                        let name = v.to_string()[1..].to_string();
                        if !vars.iter().any(|x| *x == name) {
                            vars.push(name);
                        }
                    }
                    ENodeOrVar::ENode(_) => {}
                }
            }
        }
        vars
    }

    /// Materialize workload into a vector of s-expressions''')]
V["wk-egraph-parse-helper"] = [(WK, '''            let expr: RecExpr<L> = sexp.to_string().parse().unwrap();
            for node''', '''            let expr: RecExpr<L> = to_expr(sexp);
            for node'''), (WK, '''            egraph.add_expr(&sexp.to_string().parse::<RecExpr<L>>().unwrap());''', '''            let expr = to_expr::<L>(sexp);
            egraph.add_expr(&expr);'''), (WK, '''impl From<&[&str]> for Workload {''', '''fn to_expr<L: SynthLanguage>(sexp: &Sexp) -> RecExpr<L> {
    sexp.to_string().parse().unwrap()
}

impl From<&[&str]> for Workload {''')]
V["wk-egraph-ref-loop"] = [(WK, '''        for sexp in sexps.iter() {
            egraph.add_expr(''', '''        for sexp in &sexps {
            egraph.add_expr(''')]
V["wk-egraph-not-contains-continue"] = [(WK, '''                    if !vars.contains(&v) {
                        vars.push(v);
                    }''', '''                    if vars.contains(&v) {
                        continue;
                    }
                    vars.push(v);''')]
V["wk-force-plug-flatmap"] = [(WK, '''                let mut res = vec![];
                let pegs = pegs.force();
                for sexp in wkld.force() {
                    res.extend(sexp.plug(name, &pegs));
                }
                res''', '''                let pegs = pegs.force();
                wkld.force()
                    .iter()
                    .flat_map(|sexp| sexp.plug(name, &pegs))
                    .collect()''')]
V["wk-force-plug-nested"] = [(WK, '''                for sexp in wkld.force() {
                    res.extend(sexp.plug(name, &pegs));
                }
                res''', '''                for sexp in wkld.force() {
                    for plugged in sexp.plug(name, &pegs) {
                        res.push(plugged);
                    }
                }
                res''')]
V["wk-force-filter-iter"] = [(WK, '''                let mut set = workload.force();
                set.retain(|sexp| f.test(sexp));
                set''', '''                workload.force().into_iter().filter(|s| f.test(s)).collect()''')]
V["wk-force-filter-loop"] = [(WK, '''                let mut set = workload.force();
                set.retain(|sexp| f.test(sexp));
                set''', '''                let mut kept = vec![];
                for sexp in workload.force() {
                    if f.test(&sexp) {
                        kept.push(sexp);
                    }
                }
                kept''')]
V["wk-force-append-flat"] = [(WK, '''                let mut set = vec![];
                for w in workloads {
                    set.extend(w.force());
                }
                set''', '''                workloads.iter().flat_map(|w| w.force()).collect()''')]
V["wk-force-append-append"] = [(WK, '''                    set.extend(w.force());''', '''                    let mut terms = w.force();
                    set.append(&mut terms);''')]
V["wk-force-append-map-flatten"] = [(WK, '''                let mut set = vec![];
                for w in workloads {
                    set.extend(w.force());
                }
                set''', '''                workloads.iter().map(Workload::force).flatten().collect()''')]
V["wk-force-helper"] = [(WK, '''                let mut res = vec![];
                let pegs = pegs.force();
                for sexp in wkld.force() {
                    res.extend(sexp.plug(name, &pegs));
                }
                res
            }''', '''                Self::plug_all(&wkld.force(), name, &pegs.force())
            }'''), (WK, '''    pub fn pretty_print(&self) {''', '''    fn plug_all(terms: &[Sexp], name: &str, pegs: &[Sexp]) -> Vec<Sexp> {
        let mut res = vec![];
        for t in terms {
            res.extend(t.plug(name, pegs));
        }
        res
    }

    pub fn pretty_print(&self) {''')]
V["wk-plug-iflet"] = [(WK, '''        match workload {
            // Empty plug is the same as filter excludes
            Workload::Set(xs) if xs.is_empty() => {
                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
            }
            _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
        }''', '''        let name: String = name.into();
        if let Workload::Set(xs) = workload {
            if xs.is_empty() {
                return self.filter(Filter::Excludes(Pattern::Lit(name)));
            }
        }
        Workload::Plug(Box::new(self), name, Box::new(workload.clone()))''')]
V["wk-plug-matches"] = [(WK, '''        match workload {
            // Empty plug is the same as filter excludes
            Workload::Set(xs) if xs.is_empty() => {
                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
            }
            _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
        }''', '''        let is_empty = matches!(workload, Workload::Set(xs) if xs.len() == 0);
        if is_empty {
            let pat = Pattern::Lit(name.into());
            self.filter(Filter::Excludes(pat))
        } else {
            Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone()))
        }''')]
V["wk-append-extend"] = [(WK, '''            (Workload::Set(xs), Workload::Set(ys)) => {
                let mut all = vec![];
                all.extend(xs);
                all.extend(ys);
                Workload::Set(all)
            }''', '''            (Workload::Set(mut xs), Workload::Set(ys)) => {
                xs.extend(ys);
                Workload::Set(xs)
            }''')]
V["wk-append-chain"] = [(WK, '''            (Workload::Append(xs), Workload::Append(ys)) => {
                let mut all = vec![];
                all.extend(xs);
                all.extend(ys);
                Workload::Append(all)
            }''', '''            (Workload::Append(xs), Workload::Append(ys)) => {
                Workload::Append(xs.into_iter().chain(ys).collect())
            }''')]
V["wk-append-push"] = [(WK, '''            (Workload::Append(xs), y) => {
                let mut all = vec![];
                all.extend(xs);
                all.push(y);
                Workload::Append(all)
            }
            (x, Workload::Append(ys)) => {
                let mut all = vec![];
                all.extend(ys);
                all.push(x);
                Workload::Append(all)
            }''', '''            (Workload::Append(mut ws), w) | (w, Workload::Append(mut ws)) => {
                ws.push(w);
                Workload::Append(ws)
            }''')]
V["wk-append-noann"] = [(WK, '''        let into: Workload = workload.into();
        match (self, into) {''', '''        match (self, workload.into()) {''')]
V["wk-filter-guard-order"] = [(WK, '''            Workload::Plug(wkld, name, pegs) if filter.is_monotonic() => Workload::Filter(
                filter.clone(),
                Box::new(Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))),
            ),
            Workload::Filter(f, w) => w.filter(f.and(filter)),
            _ =>''', '''            Workload::Filter(f, w) => w.filter(f.and(filter)),
            Workload::Plug(wkld, name, pegs) if filter.is_monotonic() => {
                let pegs = pegs.filter(filter.clone());
                let plugged = Workload::Plug(wkld, name, Box::new(pegs));
                Workload::Filter(filter, Box::new(plugged))
            }
            _ =>''')]
V["wk-filter-if-inside"] = [(WK, '''            Workload::Plug(wkld, name, pegs) if filter.is_monotonic() => Workload::Filter(
                filter.clone(),
                Box::new(Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))),
            ),''', '''            Workload::Plug(wkld, name, pegs) => {
                let pegs = if filter.is_monotonic() {
                    Box::new(pegs.filter(filter.clone()))
                } else {
                    pegs
                };
                Workload::Filter(filter, Box::new(Workload::Plug(wkld, name, pegs)))
            }''')]
V["wk-from-map"] = [(WK, '''        Workload::new(value.iter().copied())''', '''        Workload::new(value)''')]
V["wk-from-iter"] = [(WK, '''        Workload::new(value.iter().copied())''', '''        Self::new(value.iter().map(|s| *s))''')]
V["wk-pp"] = [(WK, '''        for t in self.force() {
            println!("{}", t);
        }''', '''        self.force().iter().for_each(|t| println!("{}", t));''')]

# ---- sexp.rs
V["sx-from-loop"] = [(SX, '''            symbolic_expressions::Sexp::List(ss) => Self::List(
                ss.iter()
                    .map(|s| Sexp::from_symbolic_expr(s.clone()))
                    .collect(),
            ),''', '''            symbolic_expressions::Sexp::List(ss) => {
                let mut items = vec![];
                for s in ss {
                    items.push(Self::from_symbolic_expr(s));
                }
                Self::List(items)
            }''')]
V["sx-from-intoiter"] = [(SX, '''                ss.iter()
                    .map(|s| Sexp::from_symbolic_expr(s.clone()))
                    .collect(),''', '''                ss.into_iter().map(Sexp::from_symbolic_expr).collect(),''')]
V["sx-fromstr-map"] = [(SX, '''        let sexp = parse_str(s).unwrap();
        Ok(Self::from_symbolic_expr(sexp))''', '''        let parsed = parse_str(s);
        Ok(Sexp::from_symbolic_expr(parsed.unwrap()))''')]
V["sx-display-q"] = [(SX, '''                write!(f, "(").expect("not written");
                for x in l {
                    write!(f, "{} ", x).expect("not written");
                }
                write!(f, ")").expect("not written");
                Ok(())''', '''                write!(f, "(").expect("not written");
                l.iter().for_each(|x| write!(f, "{} ", x).expect("not written"));
                write!(f, ")").expect("not written");
                Ok(())''')]
V["sx-display-str"] = [(SX, '''            Sexp::Atom(x) => write!(f, "{}", x),''', '''            Sexp::Atom(x) => f.write_str(x),''')]
V["sx-canon-match"] = [(SX, '''                if symbols.contains(x) && !subst.contains_key(x) {
                    subst.insert(x.into(), symbols[idx].clone());
                    idx += 1;
                }
                (subst, idx)''', '''                let fresh = symbols.contains(x) && subst.get(x).is_none();
                if !fresh {
                    return (subst, idx);
                }
                subst.insert(x.clone(), symbols[idx].clone());
                (subst, idx + 1)''')]
V["sx-canon-loop"] = [(SX, '''            Sexp::List(exps) => exps.iter().fold((subst, idx), |(acc, idx), item| {
                item.mk_canon(symbols, idx, acc)
            }),''', '''            Sexp::List(exps) => {
                for item in exps {
                    let (s, i) = item.mk_canon(symbols, idx, subst);
                    subst = s;
                    idx = i;
                }
                (subst, idx)
            }''')]
V["sx-canon-loop-tuple"] = [(SX, '''            Sexp::List(exps) => exps.iter().fold((subst, idx), |(acc, idx), item| {
                item.mk_canon(symbols, idx, acc)
            }),''', '''            Sexp::List(exps) => {
                let mut state = (subst, idx);
                for item in exps.iter() {
                    state = item.mk_canon(symbols, state.1, state.0);
                }
                state
            }''')]
V["sx-subst-unwrap"] = [(SX, '''                if let Some(v) = subst.get(s) {
                    Sexp::Atom(v.into())
                } else {
                    Sexp::Atom(s.into())
                }''', '''                Sexp::Atom(subst.get(s).unwrap_or(s).clone())''')]
V["sx-subst-match"] = [(SX, '''                if let Some(v) = subst.get(s) {
                    Sexp::Atom(v.into())
                } else {
                    Sexp::Atom(s.into())
                }''', '''                match subst.get(s) {
                    Some(v) => Sexp::Atom(v.to_string()),
                    None => self.clone(),
                }''')]
V["sx-subst-contains"] = [(SX, '''                if let Some(v) = subst.get(s) {
                    Sexp::Atom(v.into())
                } else {
                    Sexp::Atom(s.into())
                }''', '''                let name = if subst.contains_key(s) { &subst[s] } else { s };
                Sexp::Atom(name.clone())''')]
V["sx-subst-loop"] = [(SX, '''            Sexp::List(exps) => Sexp::List(exps.iter().map(|s| s.apply_subst(subst)).collect()),''', '''            Sexp::List(exps) => {
                let mut out = Vec::with_capacity(exps.len());
                for e in exps {
                    out.push(e.apply_subst(subst));
                }
                Sexp::List(out)
            }''')]
V["sx-canon-inline"] = [(SX, '''        let (subst, _) = self.mk_canon(symbols, 0, Default::default());
        self.apply_subst(&subst)''', '''        let renaming = self.mk_canon(symbols, 0, HashMap::default()).0;
        self.apply_subst(&renaming)''')]
V["sx-plug-if"] = [(SX, '''            Sexp::Atom(s) if s == name => pegs.to_vec(),
            Sexp::Atom(_) => vec![self.clone()],''', '''            Sexp::Atom(s) => {
                if s == name {
                    pegs.to_vec()
                } else {
                    vec![self.clone()]
                }
            }''')]
V["sx-plug-order"] = [(SX, '''            Sexp::Atom(s) if s == name => pegs.to_vec(),
            Sexp::Atom(_) => vec![self.clone()],
            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
''', '''            Sexp::List(sexps) if sexps.len() == 0 => vec![Sexp::List(vec![])],
            Sexp::Atom(s) if s.as_str() != name => vec![self.clone()],
            Sexp::Atom(_) => pegs.iter().cloned().collect(),
''')]
V["sx-plug-collect-first"] = [(SX, '''            Sexp::List(sexps) => sexps
                .iter()
                .map(|x| x.plug(name, pegs))
                .multi_cartesian_product()
                .map(Sexp::List)
                .collect(),''', '''            Sexp::List(sexps) => {
                let choices: Vec<Vec<Sexp>> = sexps.iter().map(|x| x.plug(name, pegs)).collect();
                choices
                    .into_iter()
                    .multi_cartesian_product()
                    .map(|args| Sexp::List(args))
                    .collect()
            }''')]
V["sx-plug-loop"] = [(SX, '''            Sexp::List(sexps) => sexps
                .iter()
                .map(|x| x.plug(name, pegs))
                .multi_cartesian_product()
                .map(Sexp::List)
                .collect(),''', '''            Sexp::List(sexps) => {
                let mut out = vec![];
                for args in sexps
                    .iter()
                    .map(|x| x.plug(name, pegs))
                    .multi_cartesian_product()
                {
                    out.push(Sexp::List(args));
                }
                out
            }''')]
V["sx-plug-prefixes"] = [(SX, '''            Sexp::List(sexps) => sexps
                .iter()
                .map(|x| x.plug(name, pegs))
                .multi_cartesian_product()
                .map(Sexp::List)
                .collect(),''', '''            Sexp::List(sexps) => {
                let mut rows: Vec<Vec<Sexp>> = vec![vec![]];
                for x in sexps {
                    let options = x.plug(name, pegs);
                    let mut next = vec![];
                    for row in &rows {
                        for o in &options {
                            let mut r = row.clone();
                            r.push(o.clone());
                            next.push(r);
                        }
                    }
                    rows = next;
                }
                rows.into_iter().map(Sexp::List).collect()
            }'''), (SX, "        use itertools::Itertools;\n", "")]
V["sx-measure-flip"] = [(SX, '''        match self {
            Sexp::Atom(_) => match metric {
                Metric::Lists => 0,
                Metric::Atoms | Metric::Depth => 1,
            },
            Sexp::List(s) => match metric {
                Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
            },
        }''', '''        match (metric, self) {
            (Metric::Lists, Sexp::Atom(_)) => 0,
            (_, Sexp::Atom(_)) => 1,
            (Metric::Atoms, Sexp::List(s)) => s.iter().map(|x| x.measure(metric)).sum(),
            (Metric::Lists, Sexp::List(s)) => 1 + s.iter().map(|x| x.measure(metric)).sum::<usize>(),
            (Metric::Depth, Sexp::List(s)) => {
                1 + s.iter().map(|x| x.measure(metric)).max().unwrap_or(0)
            }
        }''')]
V["sx-measure-fold"] = [(SX, '''                Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),''', '''                Metric::Atoms => s.iter().fold(0, |n, x| n + x.measure(metric)),''')]
V["sx-measure-loop"] = [(SX, '''                Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,''', '''                Metric::Lists => {
                    let mut total = 1;
                    for x in s {
                        total += x.measure(metric);
                    }
                    total
                }''')]
V["sx-measure-depth-fold"] = [(SX, '''                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,''', '''                Metric::Depth => 1 + s.iter().map(|x| x.measure(metric)).fold(0, usize::max),''')]
V["sx-measure-depth-loop"] = [(SX, '''                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,''', '''                Metric::Depth => {
                    let mut deepest = 0;
                    for x in s {
                        let d = x.measure(metric);
                        if d > deepest {
                            deepest = d;
                        }
                    }
                    deepest + 1
                }''')]
V["sx-measure-depth-match"] = [(SX, '''                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,''', '''                Metric::Depth => match s.iter().map(|x| x.measure(metric)).max() {
                    Some(d) => d + 1,
                    None => 1,
                },''')]
V["sx-measure-hoist"] = [(SX, '''            Sexp::List(s) => match metric {
                Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
            },''', '''            Sexp::List(s) => {
                let parts = s.iter().map(|x| x.measure(metric));
                match metric {
                    Metric::Atoms => parts.sum(),
                    Metric::Lists => parts.sum::<usize>() + 1,
                    Metric::Depth => parts.max().unwrap_or(0) + 1,
                }
            }''')]

# ---- filter.rs
V["fi-contains-if"] = [(FI, '''                pat.matches(sexp)
                    || match sexp {
                        Sexp::Atom(_) => false,
                        Sexp::List(args) => args.iter().any(|s| self.test(s)),
                    }''', '''                if pat.matches(sexp) {
                    return true;
                }
                if let Sexp::List(args) = sexp {
                    for s in args {
                        if self.test(s) {
                            return true;
                        }
                    }
                }
                false''')]
V["fi-contains-helper"] = [(FI, '''                pat.matches(sexp)
                    || match sexp {
                        Sexp::Atom(_) => false,
                        Sexp::List(args) => args.iter().any(|s| self.test(s)),
                    }
            }
            Filter::Excludes(pat) => !&Filter::Contains(pat.clone()).test(sexp),''', '''                Self::occurs(pat, sexp)
            }
            Filter::Excludes(pat) => !Self::occurs(pat, sexp),'''), (FI, '''    /// Whether this filter is implied by''', '''    fn occurs(pat: &Pattern, sexp: &Sexp) -> bool {
        if pat.matches(sexp) {
            return true;
        }
        match sexp {
            Sexp::Atom(_) => false,
            Sexp::List(args) => args.iter().any(|s| Self::occurs(pat, s)),
        }
    }

    /// Whether this filter is implied by''')]
V["fi-excludes-bind"] = [(FI, '''            Filter::Excludes(pat) => !&Filter::Contains(pat.clone()).test(sexp),''', '''            Filter::Excludes(pat) => {
                let inverse = Filter::Contains(pat.clone());
                !inverse.test(sexp)
            }''')]
V["fi-canon-eq"] = [(FI, '''sexp.eq(&sexp.canon(symbols))''', '''*sexp == sexp.canon(symbols)''')]
V["fi-canon-eq-sym"] = [(FI, '''sexp.eq(&sexp.canon(symbols))''', '''{
                let canonical = sexp.canon(symbols);
                &canonical == sexp
            }''')]
V["fi-and-loop"] = [(FI, '''            Filter::And(fs) => fs.iter().all(|f| f.test(sexp)),
            Filter::Or(fs) => fs.iter().any(|f| f.test(sexp)),''', '''            Filter::And(fs) => {
                for f in fs {
                    if !f.test(sexp) {
                        return false;
                    }
                }
                true
            }
            Filter::Or(fs) => {
                for f in fs {
                    if f.test(sexp) {
                        return true;
                    }
                }
                false
            }''')]
V["fi-or-demorgan"] = [(FI, '''            Filter::Or(fs) => fs.iter().any(|f| f.test(sexp)),''', '''            Filter::Or(fs) => !fs.iter().all(|f| !f.test(sexp)),''')]
V["fi-lt-flip"] = [(FI, '''sexp.measure(*metric) < *n''', '''*n > sexp.measure(*metric)''')]
V["fi-subsumed-any"] = [(FI, '''        if let Filter::MetricLt(met, n) = self {
            for f in fs {
                if let Filter::MetricLt(met1, n1) = f {
                    if met == met1 && n >= n1 {
                        return true;
                    }
                }
            }
            false
        } else {
            false
        }''', '''        match self {
            Filter::MetricLt(met, n) => fs
                .iter()
                .any(|f| matches!(f, Filter::MetricLt(met1, n1) if met == met1 && n1 <= n)),
            _ => false,
        }''')]
V["fi-subsumed-nested-any"] = [(FI, '''            for f in fs {
                if let Filter::MetricLt(met1, n1) = f {
                    if met == met1 && n >= n1 {
                        return true;
                    }
                }
            }
            false
        } else {''', '''            fs.iter().any(|f| match f {
                Filter::MetricLt(met1, n1) => met == met1 && n >= n1,
                _ => false,
            })
        } else {''')]
V["fi-and-mut"] = [(FI, '''            (Filter::And(f1s), Filter::And(f2s)) => {
                let mut all = f1s;
                all.extend(f2s);
                all
            }
            (Filter::And(fs), f) => {
                let mut all = fs;
                all.push(f);
                all
            }
            (f, Filter::And(fs)) => {
                let mut all = fs;
                all.push(f);
                all
            }''', '''            (Filter::And(mut f1s), Filter::And(f2s)) => {
                f1s.extend(f2s);
                f1s
            }
            (Filter::And(mut fs), f) | (f, Filter::And(mut fs)) => {
                fs.push(f);
                fs
            }''')]
V["fi-and-min-continue"] = [(FI, '''            if !f.subsumed_by(&minimized) {
                minimized.push(f);
            }''', '''            if f.subsumed_by(&minimized) {
                continue;
            }
            minimized.push(f);''')]
V["fi-and-min-helper"] = [(FI, '''        let mut minimized = vec![];
        for f in all {
            if !f.subsumed_by(&minimized) {
                minimized.push(f);
            }
        }

        Filter::And(minimized)
    }''', '''        Filter::And(Self::drop_subsumed(all))
    }

    fn drop_subsumed(all: Vec<Self>) -> Vec<Self> {
        let mut minimized: Vec<Self> = Vec::with_capacity(all.len());
        for f in all.into_iter() {
            if !f.subsumed_by(&minimized) {
                minimized.push(f);
            }
        }
        minimized
    }''')]
V["fi-and-fold"] = [(FI, '''        let mut minimized = vec![];
        for f in all {
            if !f.subsumed_by(&minimized) {
                minimized.push(f);
            }
        }

        Filter::And(minimized)''', '''        let minimized = all.into_iter().fold(vec![], |mut acc, f| {
            if !f.subsumed_by(&acc) {
                acc.push(f);
            }
            acc
        });

        Filter::And(minimized)''')]
V["fi-mono-alt"] = [(FI, '''            Filter::MetricLt(_, _) => true,
            Filter::Excludes(_) => true,
''', '''            Filter::MetricLt(..) | Filter::Excludes(..) => true,
''')]
V["fi-mono-neg"] = [(FI, '''            Filter::And(fs) => fs.iter().all(|f| f.is_monotonic()),
            _ => false,''', '''            Filter::And(fs) => !fs.iter().any(|f| !f.is_monotonic()),
            Filter::MetricEq(..) | Filter::Contains(_) | Filter::Canon(_) => false,
            Filter::Or(_) | Filter::Invert(_) => false,''')]
V["fi-mono-path"] = [(FI, "fs.iter().all(|f| f.is_monotonic())", "fs.iter().all(Filter::is_monotonic)")]

# ---- pattern.rs
V["pa-from-if"] = [(PA, '''            symbolic_expressions::Sexp::String(s) if s == "*" => Self::Wild,
            symbolic_expressions::Sexp::String(s) if s.starts_with('?') => Self::Var(s),
            symbolic_expressions::Sexp::String(s) => Self::Lit(s),''', '''            symbolic_expressions::Sexp::String(s) => {
                if s == "*" {
                    Self::Wild
                } else if s.starts_with("?") {
                    Self::Var(s)
                } else {
                    Self::Lit(s)
                }
            }''')]
V["pa-from-order"] = [(PA, '''            symbolic_expressions::Sexp::String(s) if s == "*" => Self::Wild,
            symbolic_expressions::Sexp::String(s) if s.starts_with('?') => Self::Var(s),''', '''            symbolic_expressions::Sexp::String(s) if s.starts_with('?') => Self::Var(s),
            symbolic_expressions::Sexp::String(s) if s == "*" => Self::Wild,''')]
V["pa-from-loop"] = [(PA, '''            symbolic_expressions::Sexp::List(ss) => Self::List(
                ss.iter()
                    .map(|s| Self::from_symbolic_expr(s.clone()))
                    .collect(),
            ),''', '''            symbolic_expressions::Sexp::List(ss) => {
                let mut pats = vec![];
                for s in ss {
                    pats.push(Self::from_symbolic_expr(s));
                }
                Self::List(pats)
            }''')]
V["pa-matches-match"] = [(PA, '''        self.matches_with(sexp, Default::default()).is_some()''', '''        let subst = HashMap::default();
        matches!(self.matches_with(sexp, subst), Some(_))''')]
V["pa-var-match"] = [(PA, '''                if let Some(x) = subst.get(pvar) {
                    // pvar already bound, check consistency
                    if sexp.eq(x) {
                        Some(subst)
                    } else {
                        None
                    }
                } else {
                    // pvar not yet bound, just add to subst
                    subst.insert(pvar.clone(), sexp.clone());
                    Some(subst)
                }''', '''                match subst.get(pvar) {
                    Some(bound) if bound != sexp => None,
                    Some(_) => Some(subst),
                    None => {
                        subst.insert(pvar.clone(), sexp.clone());
                        Some(subst)
                    }
                }''')]
V["pa-var-early"] = [(PA, '''                if let Some(x) = subst.get(pvar) {
                    // pvar already bound, check consistency
                    if sexp.eq(x) {
                        Some(subst)
                    } else {
                        None
                    }
                } else {
                    // pvar not yet bound, just add to subst
                    subst.insert(pvar.clone(), sexp.clone());
                    Some(subst)
                }''', '''                if !subst.contains_key(pvar) {
                    subst.insert(pvar.clone(), sexp.clone());
                    return Some(subst);
                }
                if subst[pvar] == *sexp {
                    Some(subst)
                } else {
                    None
                }''')]
V["pa-lit-guard"] = [(PA, '''            Pattern::Lit(plit) => match sexp {
                Sexp::Atom(lit) => {
                    if plit == lit {
                        Some(subst)
                    } else {
                        None
                    }
                }
                Sexp::List(_) => None,
            },''', '''            Pattern::Lit(plit) => match sexp {
                Sexp::Atom(lit) if lit == plit => Some(subst),
                _ => None,
            },''')]
V["pa-list-try"] = [(PA, '''                        pats.iter()
                            .zip(args.iter())
                            .fold(Some(subst), |acc, (pat, sexp)| {
                                if let Some(subst) = acc {
                                    pat.matches_with(sexp, subst)
                                } else {
                                    None
                                }
                            })''', '''                        let mut subst = subst;
                        for (pat, sexp) in pats.iter().zip(args) {
                            subst = pat.matches_with(sexp, subst)?;
                        }
                        Some(subst)''')]
V["pa-list-tryfold"] = [(PA, '''                            .fold(Some(subst), |acc, (pat, sexp)| {
                                if let Some(subst) = acc {
                                    pat.matches_with(sexp, subst)
                                } else {
                                    None
                                }
                            })''', '''                            .try_fold(subst, |acc, (pat, sexp)| pat.matches_with(sexp, acc))''')]
V["pa-list-andthen"] = [(PA, '''                            .fold(Some(subst), |acc, (pat, sexp)| {
                                if let Some(subst) = acc {
                                    pat.matches_with(sexp, subst)
                                } else {
                                    None
                                }
                            })''', '''                            .fold(Some(subst), |acc, (pat, sexp)| {
                                acc.and_then(|subst| pat.matches_with(sexp, subst))
                            })''')]
V["pa-list-early"] = [(PA, '''                Sexp::List(args) => {
                    if pats.len() == args.len() {''', '''                Sexp::List(args) => {
                    if pats.len() != args.len() {
                        return None;
                    }
                    {'''), (PA, '''                            })
                    } else {
                        None
                    }
                }''', '''                            })
                    }
                }''')]
V["pa-tuple-match"] = [(PA, '''        match self {
            Pattern::Wild => {
                // Wild matches anything
                Some(subst)
            }''', '''        match self {
            Pattern::Wild => Some(subst),''')]
V["pa-list-index"] = [(PA, '''                        pats.iter()
                            .zip(args.iter())
                            .fold(Some(subst), |acc, (pat, sexp)| {
                                if let Some(subst) = acc {
                                    pat.matches_with(sexp, subst)
                                } else {
                                    None
                                }
                            })''', '''                        for i in 0..pats.len() {
                            match pats[i].matches_with(&args[i], subst) {
                                Some(s) => subst = s,
                                None => return None,
                            }
                        }
                        Some(subst)''')]

# ---- util.rs
V["ut-letter-get"] = [(UT, '''    let alpha = "abcdefghijklmnopqrstuvwxyz";
    &alpha[i..i + 1]''', '''    const ALPHABET: &str = "abcdefghijklmnopqrstuvwxyz";
    let end = i + 1;
    &ALPHABET[i..end]''')]
V["ut-prod-helper"] = [(UT, '''    let mut res = vec![];
    for i in 0..n {
        let mut entry = vec![];
        while entry.len() < num_rows {
            for c in ts {
                for _ in 0..num_consts.pow(i as u32) {
                    entry.push(c.clone());
                }
            }
        }
        res.push(entry);
    }
    res
}''', '''    let mut res = vec![];
    for i in 0..n {
        res.push(column(ts, i, num_rows));
    }
    res
}

fn column<T: Clone>(ts: &[T], i: usize, num_rows: usize) -> Vec<T> {
    let repeat = ts.len().pow(i as u32);
    let mut entry = vec![];
    while entry.len() < num_rows {
        for c in ts {
            for _ in 0..repeat {
                entry.push(c.clone());
            }
        }
    }
    entry
}''')]
V["ut-prod-map"] = [(UT, '''    let mut res = vec![];
    for i in 0..n {
        let mut entry = vec![];
        while entry.len() < num_rows {
            for c in ts {
                for _ in 0..num_consts.pow(i as u32) {
                    entry.push(c.clone());
                }
            }
        }
        res.push(entry);
    }
    res
}''', '''    (0..n)
        .map(|i| {
            let mut entry = vec![];
            while entry.len() < num_rows {
                for c in ts {
                    for _ in 0..num_consts.pow(i as u32) {
                        entry.push(c.clone());
                    }
                }
            }
            entry
        })
        .collect()
}''')]
V["ut-prod-extend"] = [(UT, '''                for _ in 0..num_consts.pow(i as u32) {
                    entry.push(c.clone());
                }''', '''                entry.extend(std::iter::repeat(c.clone()).take(num_consts.pow(i as u32)));''')]
V["ut-prod-hoist"] = [(UT, '''        let mut entry = vec![];
        while entry''', '''        let run = num_consts.pow(i as u32);
        let mut entry = vec![];
        while entry'''), (UT, "for _ in 0..num_consts.pow(i as u32) {", "for _ in 0..run {")]
V["ut-count-match"] = [(UT, '''    if let Ok(file) = File::open(filepath) {
        Some(BufReader::new(file).lines().count())
    } else {
        None
    }''', '''    match File::open(filepath) {
        Ok(file) => Some(BufReader::new(file).lines().count()),
        Err(_) => None,
    }''')]
V["ut-count-q"] = [(UT, '''    if let Ok(file) = File::open(filepath) {
        Some(BufReader::new(file).lines().count())
    } else {
        None
    }''', '''    let file = File::open(&filepath).ok()?;
    let reader = BufReader::new(file);
    Some(reader.lines().count())''')]
V["ut-count-map"] = [(UT, '''    if let Ok(file) = File::open(filepath) {
        Some(BufReader::new(file).lines().count())
    } else {
        None
    }''', '''    File::open(filepath)
        .map(|file| BufReader::new(file).lines().count())
        .ok()''')]

# ---- logger.rs
V["lg-path-const"] = [(LOG, '''    let path = "nightly/data/output.json";
    std::fs::create_dir_all("nightly/data").unwrap_or_else(|e| panic!("Error creating dir: {}", e));
''', '''    const DIR: &str = "nightly/data";
    let path = "nightly/data/output.json";
    if let Err(e) = fs::create_dir_all(DIR) {
        panic!("Error creating dir: {}", e);
    }
''')]
V["lg-read-helper"] = [(LOG, '''    let s = fs::read_to_string(path).expect("Unable to read file");

    let mut contents: Vec<Value> = if s.is_empty() {
        vec![]
    } else {
        serde_json::from_str(&s).expect("Unable to parse json")
    };

    contents.push(json);
''', '''    let mut contents = read_rows(path);
    contents.push(json);
'''), (LOG, '''/**
 * Constructs a JSON object that corresponds to a single row of the baseline''', '''fn read_rows(path: &str) -> Vec<Value> {
    let s = fs::read_to_string(path).expect("Unable to read file");
    if s.is_empty() {
        return vec![];
    }
    serde_json::from_str(&s).expect("Unable to parse json")
}

/**
 * Constructs a JSON object that corresponds to a single row of the baseline''')]
V["lg-not-empty"] = [(LOG, '''    let mut contents: Vec<Value> = if s.is_empty() {
        vec![]
    } else {
        serde_json::from_str(&s).expect("Unable to parse json")
    };
''', '''    let mut contents: Vec<Value> = vec![];
    if !s.is_empty() {
        contents = serde_json::from_str(&s).expect("Unable to parse json");
    }
''')]
V["lg-write-bind"] = [(LOG, '''    std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap())
        .expect("Unable to write to json file");''', '''    let text = serde_json::to_string_pretty(&contents).unwrap();
    fs::write(path, text).expect("Unable to write to json file");''')]
V["lg-base-helper"] = [(LOG, '''    let enumo_derives_baseline = if skip_derive.contains(&(spec_name, baseline_name)) {
        json!({})
    } else {
        json!({
            "lhs": get_derivability(ruleset, baseline, DeriveType::Lhs),
            "lhs_rhs": get_derivability(ruleset, baseline, DeriveType::LhsAndRhs)
        })
    };

    let baseline_derives_enumo = if skip_derive.contains(&(baseline_name, spec_name)) {
        json!({})
    } else {
        json!({
            "lhs": get_derivability(baseline, ruleset, DeriveType::Lhs),
            "lhs_rhs": get_derivability(baseline, ruleset, DeriveType::LhsAndRhs)
        })
    };
''', '''    let enumo_derives_baseline = if skip_derive.contains(&(spec_name, baseline_name)) {
        json!({})
    } else {
        both_modes(ruleset, baseline)
    };

    let baseline_derives_enumo = if skip_derive.contains(&(baseline_name, spec_name)) {
        json!({})
    } else {
        both_modes(baseline, ruleset)
    };
'''), (LOG, '''/**
 * Uses `ruleset` to derive''', '''fn both_modes<L: SynthLanguage>(a: &Ruleset<L>, b: &Ruleset<L>) -> Value {
    json!({
        "lhs": get_derivability(a, b, DeriveType::Lhs),
        "lhs_rhs": get_derivability(a, b, DeriveType::LhsAndRhs)
    })
}

/**
 * Uses `ruleset` to derive''')]
V["lg-base-loc"] = [(LOG, '''    let loc = count_lines(spec_name)
        .map(|x| x.to_string())
        .unwrap_or_else(|| "-".to_string());''', '''    let loc = match count_lines(spec_name) {
        Some(n) => n.to_string(),
        None => "-".to_string(),
    };''')]
V["lg-base-skip-array"] = [(LOG, '''    let skip_derive = vec![
        ("herbie", "rational_replicate"),
        ("herbie", "rational_best"),
    ];''', '''    let skip_derive = [
        ("herbie", "rational_replicate"),
        ("herbie", "rational_best"),
    ];''')]
V["lg-base-skip-matches"] = [(LOG, '''    let skip_derive = vec![
        ("herbie", "rational_replicate"),
        ("herbie", "rational_best"),
    ];''', '''    let skip = |a: &str, b: &str| a == "herbie" && (b == "rational_replicate" || b == "rational_best");'''),
    (LOG, "skip_derive.contains(&(spec_name, baseline_name))", "skip(spec_name, baseline_name)"),
    (LOG, "skip_derive.contains(&(baseline_name, spec_name))", "skip(baseline_name, spec_name)")]
V["lg-base-row-inline"] = [(LOG, '''    let row = json!({
      "TYPE": "baseline",''', '''    let rules = ruleset.to_str_vec();
    let time = time.as_secs_f64();
    let row = json!({
      "TYPE": "baseline",'''), (LOG, '''      "loc": loc,
      "rules": ruleset.to_str_vec(),
      "time": time.as_secs_f64(),''', '''      "loc": loc,
      "rules": rules,
      "time": time,''')]
V["lg-bv-helper"] = [(LOG, '''    let start = Instant::now();
    let (can, cannot) = sound_bv4.derive(DeriveType::LhsAndRhs, &gen_rules, Limits::deriving());
    let derive_time = start.elapsed();
    let lhsrhs = json!({
        "can": can.to_str_vec(),
        "cannot": cannot.to_str_vec(),
        "time": derive_time.as_secs_f64()
    });

    let start = Instant::now();
    let (can, cannot) = sound_bv4.derive(DeriveType::Lhs, &gen_rules, Limits::deriving());
    let derive_time = start.elapsed();
    let lhs = json!({
        "can": can.to_str_vec(),
        "cannot": cannot.to_str_vec(),
        "time": derive_time.as_secs_f64()
    });
''', '''    let derivability = |derive_type: DeriveType| {
        let start = Instant::now();
        let (can, cannot) = sound_bv4.derive(derive_type, &gen_rules, Limits::deriving());
        let derive_time = start.elapsed();
        json!({
            "can": can.to_str_vec(),
            "cannot": cannot.to_str_vec(),
            "time": derive_time.as_secs_f64()
        })
    };
    let lhsrhs = derivability(DeriveType::LhsAndRhs);
    let lhs = derivability(DeriveType::Lhs);
''')]
V["lg-bv-path"] = [(LOG, '''    let (sound_bv4, _) = ported_bv4_rules.partition(|rule| rule.is_valid());''', '''    let sound_bv4 = ported_bv4_rules.partition(|rule| rule.is_valid()).0;''')]
V["lg-ff-tostring"] = [(LOG, '''        "phase1": format!("{}", phase1),
        "phase2": format!("{}", phase2),
        "phase3": format!("{}", phase3),''', '''        "phase1": phase1.to_string(),
        "phase2": phase2.to_string(),
        "phase3": phase3.to_string(),''')]
V["lg-ff-row"] = [(LOG, '''    add_json_to_file(json!({
        "TYPE": "ff_phases",
        "phase1": format!("{}", phase1),
        "phase2": format!("{}", phase2),
        "phase3": format!("{}", phase3),
        "time": time.as_secs_f64(),
        "rules": rules.to_str_vec()
    }))''', '''    let row = json!({
        "TYPE": "ff_phases",
        "rules": rules.to_str_vec(),
        "time": time.as_secs_f64(),
        "phase1": format!("{}", phase1),
        "phase2": format!("{}", phase2),
        "phase3": format!("{}", phase3)
    });
    add_json_to_file(row);''')]

# ---- recipe_utils.rs
V["re-iter-inclusive"] = [(REC, '''    for i in 1..(n + 1) {
        pegs = wkld''', '''    for i in 1..=n {
        pegs = wkld''')]
V["re-iter-bind"] = [(REC, '''        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1));''', '''        let plugged = wkld.clone().plug(atom, &pegs);
        let bound = i + 1;
        pegs = plugged.filter(Filter::MetricLt(met, bound));''')]
V["re-iter-shift"] = [(REC, '''    for i in 1..(n + 1) {
        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1));
    }''', '''    for i in 0..n {
        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 2));
    }''')]
V["re-iter-fold"] = [(REC, '''    let mut pegs = wkld.clone();
    for i in 1..(n + 1) {
        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1));
    }
    pegs''', '''    (1..(n + 1)).fold(wkld.clone(), |pegs, i| {
        wkld.clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1))
    })''')]
V["re-iter-while"] = [(REC, '''    for i in 1..(n + 1) {
        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1));
    }
    pegs''', '''    let mut i = 1;
    while i <= n {
        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1));
        i += 1;
    }
    pegs''')]
V["re-sub-fold"] = [(REC, '''    let mut pegs = Workload::Set(vec![]);
    let substitutions = sub.force();
    for sub in substitutions {
        pegs = pegs.append(workload.clone().plug(atom, &Workload::Set(vec![sub])));
    }
    pegs''', '''    sub.force().into_iter().fold(Workload::empty(), |pegs, s| {
        pegs.append(workload.clone().plug(atom, &Workload::Set(vec![s])))
    })''')]
V["re-sub-bind"] = [(REC, '''        pegs = pegs.append(workload.clone().plug(atom, &Workload::Set(vec![sub])));''', '''        let single = Workload::Set(vec![sub]);
        let plugged = workload.clone().plug(atom, &single);
        pegs = pegs.append(plugged);''')]
V["re-run-match"] = [(REC, '''    let mut candidates = if fast_match {
        Ruleset::fast_cvec_match(&compressed)
    } else {
        Ruleset::cvec_match(&compressed)
    };''', '''    let mut candidates = match fast_match {
        true => Ruleset::fast_cvec_match(&compressed),
        false => Ruleset::cvec_match(&compressed),
    };''')]
V["re-run-order"] = [(REC, '''    let num_prior = prior.len();
    let (chosen, _) = candidates.minimize(prior, Scheduler::Compress(minimize_limits));
    let time = t.elapsed().as_secs_f64();

    if chosen.is_empty() && !allow_empty {
        panic!("Didn't learn any rules!");
    }
''', '''    let num_prior = prior.len();
    let scheduler = Scheduler::Compress(minimize_limits);
    let chosen = candidates.minimize(prior, scheduler).0;
    let time = t.elapsed().as_secs_f64();

    if !allow_empty {
        if chosen.is_empty() {
            panic!("Didn't learn any rules!");
        }
    }
''')]
V["re-run-assert"] = [(REC, '''    if chosen.is_empty() && !allow_empty {
        panic!("Didn't learn any rules!");
    }
''', '''    assert!(allow_empty || !chosen.is_empty(), "Didn't learn any rules!");
''')]
V["re-run-report"] = [(REC, '''    println!(
        "Learned {} bidirectional rewrites ({} total rewrites) in {} using {} prior rewrites",
        chosen.bidir_len(),
        chosen.len(),
        time,
        num_prior
    );

    chosen.pretty_print();

    chosen
}

/// Runs rule inference:''', '''    report(&chosen, time, num_prior);

    chosen
}

fn report<L: SynthLanguage>(chosen: &Ruleset<L>, time: f64, num_prior: usize) {
    println!(
        "Learned {} bidirectional rewrites ({} total rewrites) in {} using {} prior rewrites",
        chosen.bidir_len(),
        chosen.len(),
        time,
        num_prior
    );

    chosen.pretty_print();
}

/// Runs rule inference:''')]
V["re-ff-union"] = [(REC, '''    let mut all_rules = prior.clone();
    all_rules.extend(exploratory);
    let eg_final''', '''    let all_rules = prior.union(&exploratory);
    let eg_final''')]
V["re-ff-order"] = [(REC, '''    let eg_init = workload.to_egraph::<L>();
    let num_prior = prior.len();

    // Allowed rules: compress e-graph, no candidates
    let (allowed, _) = prior.partition(|rule| L::is_allowed_rewrite(&rule.lhs, &rule.rhs));
''', '''    let num_prior = prior.len();
    let exploratory = L::get_exploratory_rules();
    let allowed = prior
        .partition(|rule| L::is_allowed_rewrite(&rule.lhs, &rule.rhs))
        .0;
    let eg_init = workload.to_egraph::<L>();
'''), (REC, '''    // Translation rules: grow egraph, extract candidates, assert!(saturated)
    let exploratory = L::get_exploratory_rules();
''', '')]
V["re-ff-cands"] = [(REC, '''    candidates.extend(Ruleset::extract_candidates(&eg_denote, &eg_final));''', '''    let more = Ruleset::extract_candidates(&eg_denote, &eg_final);
    candidates.extend(more);''')]
V["re-ff-helper"] = [(REC, '''    let eg_init = workload.to_egraph::<L>();
    let num_prior = prior.len();

    // Allowed rules: compress e-graph, no candidates
    let (allowed, _) = prior.partition(|rule| L::is_allowed_rewrite(&rule.lhs, &rule.rhs));
    let eg_allowed = Scheduler::Compress(prior_limits).run(&eg_init, &allowed);
''', '''    let eg_init = workload.to_egraph::<L>();
    let num_prior = prior.len();

    let allowed = allowed_rules(&prior);
    let compress = Scheduler::Compress(prior_limits);
    let eg_allowed = compress.run(&eg_init, &allowed);
'''), (REC, '''#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Lang {''', '''fn allowed_rules<L: SynthLanguage>(prior: &Ruleset<L>) -> Ruleset<L> {
    let (allowed, _forbidden) = prior.partition(|r| L::is_allowed_rewrite(&r.lhs, &r.rhs));
    allowed
}

#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Lang {''')]
V["re-lang-helper"] = [(REC, '''            vals: vals.iter().map(|x| x.to_string()).collect(),
            vars: vars.iter().map(|x| x.to_string()).collect(),
            ops: ops
                .iter()
                .map(|o| o.iter().map(|x| x.to_string()).collect())
                .collect(),
        }
    }
}''', '''            vals: to_strings(vals),
            vars: to_strings(vars),
            ops: ops.iter().map(|o| to_strings(o)).collect(),
        }
    }
}

fn to_strings(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|x| x.to_string()).collect()
}''')]
V["re-rec-early"] = [(REC, '''    if n < 1 {
        Ruleset::default()
    } else {
        let mut rec''', '''    if n == 0 {
        return Ruleset::default();
    }
    {
        let mut rec''')]
V["re-rec-order"] = [(REC, '''        rec.extend(prior);
        let allow_empty = n < 3;
''', '''        let allow_empty = n < 3;
        rec.extend(prior);
''')]
V["re-rec-all"] = [(REC, '''        let mut all = new;
        all.extend(rec);
        all
''', '''        new.union(&rec)
''')]
V["re-rec-mutnew"] = [(REC, '''        let new = run_workload_internal(''', '''        let mut new = run_workload_internal('''), (REC, '''        let mut all = new;
        all.extend(rec);
        all
''', '''        new.extend(rec);
        new
''')]
V["re-rec-index"] = [(REC, '''        for (i, ops) in lang.ops.iter().enumerate() {
            wkld = wkld.plug(format!("OP{}", i + 1), &Workload::new(ops));
        }''', '''        let mut arity = 1;
        for ops in &lang.ops {
            wkld = wkld.plug(format!("OP{}", arity), &Workload::new(ops));
            arity += 1;
        }''')]
V["re-rec-grammar-helper"] = [(REC, '''        let base_lang = base_lang(lang.ops.len());
        let mut wkld = iter_metric(base_lang, "EXPR", metric, n)
            .filter(Filter::Contains("VAR".parse().unwrap()))
            .plug("VAR", &Workload::new(lang.vars))
            .plug("VAL", &Workload::new(lang.vals));
        // let ops = vec![lang.uops, lang.bops, lang.tops];
        for (i, ops) in lang.ops.iter().enumerate() {
            wkld = wkld.plug(format!("OP{}", i + 1), &Workload::new(ops));
        }
''', '''        let wkld = lang_workload(metric, n, lang);
'''), (REC, '''/// Util function for making a grammar''', '''fn lang_workload(metric: Metric, n: usize, lang: Lang) -> Workload {
    let mut wkld = iter_metric(base_lang(lang.ops.len()), "EXPR", metric, n)
        .filter(Filter::Contains("VAR".parse().unwrap()))
        .plug("VAR", &Workload::new(&lang.vars))
        .plug("VAL", &Workload::new(&lang.vals));
    for (i, ops) in lang.ops.iter().enumerate() {
        let name = format!("OP{}", i + 1);
        wkld = wkld.plug(name, &Workload::new(ops));
    }
    wkld
}

/// Util function for making a grammar''')]
V["re-base-extend"] = [(REC, '''    for i in 1..(n + 1) {
        let s = format!("(OP{}{})", i, " EXPR".repeat(i));
        vals.push(s);
    }
    Workload::new(vals)''', '''    vals.extend((1..=n).map(|i| format!("(OP{}{})", i, " EXPR".repeat(i))));
    Workload::new(vals)''')]
V["re-base-inclusive"] = [(REC, '''    for i in 1..(n + 1) {
        let s = format!("(OP{}{})", i, " EXPR".repeat(i));
        vals.push(s);
    }''', '''    for i in 1..=n {
        let args = " EXPR".repeat(i);
        vals.push(format!("(OP{}{})", i, args));
    }''')]

# ---- lib.rs
V["li-cost-early"] = [(LIB, '''        if enode.is_allowed_op() {
            enode.fold(1, |sum, id| sum.saturating_add(costs(id)))
        } else {
            usize::max_value()
        }''', '''        if !enode.is_allowed_op() {
            return usize::MAX;
        }
        enode.fold(1usize, |sum, id| {
            let cost = costs(id);
            sum.saturating_add(cost)
        })''')]
V["li-cost-loop"] = [(LIB, '''            enode.fold(1, |sum, id| sum.saturating_add(costs(id)))''', '''            let mut sum: usize = 1;
            for id in enode.children() {
                sum = sum.saturating_add(costs(*id));
            }
            sum''')]
V["li-cost-foreach"] = [(LIB, '''            enode.fold(1, |sum, id| sum.saturating_add(costs(id)))''', '''            let mut sum: usize = 1;
            enode.for_each(|id| sum = sum.saturating_add(costs(id)));
            sum''')]
V["li-minimize-synth"] = [(LIB, '''    pub fn minimize() -> Self {
        Self {
            iter: 2,
            node: 300_000,
            match_: 200_000,
        }
    }''', '''    pub fn minimize() -> Self {
        Self::synthesis()
    }''')]
V["li-limits-new"] = [(LIB, '''    pub fn deriving() -> Self {
        Self {
            iter: 5,
            node: 100_000,
            match_: 1000,
        }
    }''', '''    pub fn deriving() -> Self {
        Self::with(5, 100_000, 1_000)
    }

    fn with(iter: usize, node: usize, match_: usize) -> Self {
        Limits { iter, node, match_ }
    }''')]
V["li-interval-match"] = [(LIB, '''        if let (Some(a), Some(b)) = (&low, &high) {
            assert!(
                a.le(b),
                "Invalid interval: low must be less than or equal to high\\n{} >= {}",
                a,
                b
            );
        }
        Self { low, high }''', '''        match (&low, &high) {
            (Some(a), Some(b)) if a > b => panic!(
                "Invalid interval: low must be less than or equal to high\\n{} >= {}",
                a, b
            ),
            _ => Self { low, high },
        }''')]
V["li-interval-nested"] = [(LIB, '''        if let (Some(a), Some(b)) = (&low, &high) {
            assert!(''', '''        if let (Some(a), Some(b)) = (low.as_ref(), high.as_ref()) {
            assert!('''), (LIB, "                a.le(b),\n", "                a <= b,\n")]
V["li-phase-fn"] = [(LIB, '''        let scheduler_name = match self.scheduler {
            Scheduler::Simple(_) => "eqsat",
            Scheduler::Saturating(_) => "sat",
            Scheduler::Compress(_) => "compress",
        };
        write!(f, "{} ({})", scheduler_name, self.rules_name)''', '''        let name: &str = match &self.scheduler {
            Scheduler::Compress(_) => "compress",
            Scheduler::Saturating(_) => "sat",
            Scheduler::Simple(_) => "eqsat",
        };
        write!(f, "{} ({})", name, &self.rules_name)''')]

# ---- language.rs
V["la-defined-match"] = [(LANG, '''        self.cvec.is_empty() || self.cvec.iter().any(|v| v.is_some())''', '''        if self.cvec.is_empty() {
            return true;
        }
        self.cvec.iter().any(Option::is_some)''')]
V["la-defined-all"] = [(LANG, '''        self.cvec.is_empty() || self.cvec.iter().any(|v| v.is_some())''', '''        self.cvec.len() == 0 || !self.cvec.iter().all(|v| v.is_none())''')]
V["la-defined-flatten"] = [(LANG, '''        self.cvec.is_empty() || self.cvec.iter().any(|v| v.is_some())''', '''        self.cvec.is_empty() || self.cvec.iter().flatten().next().is_some()''')]
V["la-defined-loop"] = [(LANG, '''        self.cvec.is_empty() || self.cvec.iter().any(|v| v.is_some())''', '''        for v in &self.cvec {
            if v.is_some() {
                return true;
            }
        }
        self.cvec.is_empty()''')]
V["la-make-helper"] = [(LANG, '''        let simplest = if enode.is_var() || enode.is_constant() {
            let mut rec = RecExpr::<L>::default();
            rec.add(enode.clone());
            rec
        } else {
            let mut nodes: Vec<L> = vec![];
            let mut map: HashMap<Id, Id> = HashMap::default();
            enode.for_each(|id| {
                if map.get(&id).is_none() {
                    let s = get_simplest(&id);
                    let i = nodes.len();
                    for n in s.as_ref() {
                        nodes.push(n.clone().map_children(|id| Id::from(usize::from(id) + i)));
                    }

                    map.insert(id, Id::from(nodes.len() - 1));
                }
            });

            nodes.push(enode.clone().map_children(|id| *map.get(&id).unwrap()));
            RecExpr::from(nodes)
        };
''', '''        let simplest = Self::simplest_term(egraph, enode);
'''), (LANG, '''        let get_simplest = |i: &Id| &egraph[*i].data.simplest;

''', ''), (LANG, '''impl<L: SynthLanguage> Analysis<L> for SynthAnalysis {''', '''impl SynthAnalysis {
    fn simplest_term<L: SynthLanguage>(egraph: &EGraph<L, Self>, enode: &L) -> RecExpr<L> {
        if enode.is_var() || enode.is_constant() {
            let mut rec = RecExpr::<L>::default();
            rec.add(enode.clone());
            return rec;
        }
        let mut nodes: Vec<L> = vec![];
        let mut map: HashMap<Id, Id> = HashMap::default();
        enode.for_each(|id| {
            if !map.contains_key(&id) {
                let offset = nodes.len();
                for n in egraph[id].data.simplest.as_ref() {
                    nodes.push(n.clone().map_children(|id| Id::from(usize::from(id) + offset)));
                }
                map.insert(id, Id::from(nodes.len() - 1));
            }
        });

        nodes.push(enode.clone().map_children(|id| map[&id]));
        RecExpr::from(nodes)
    }
}

impl<L: SynthLanguage> Analysis<L> for SynthAnalysis {''')]
V["la-make-children"] = [(LANG, '''            enode.for_each(|id| {
                if map.get(&id).is_none() {
                    let s = get_simplest(&id);
                    let i = nodes.len();
                    for n in s.as_ref() {
                        nodes.push(n.clone().map_children(|id| Id::from(usize::from(id) + i)));
                    }

                    map.insert(id, Id::from(nodes.len() - 1));
                }
            });
''', '''            for &id in enode.children() {
                if map.contains_key(&id) {
                    continue;
                }
                let i = nodes.len();
                nodes.extend(
                    get_simplest(&id)
                        .as_ref()
                        .iter()
                        .map(|n| n.clone().map_children(|id| Id::from(usize::from(id) + i))),
                );
                map.insert(id, Id::from(nodes.len() - 1));
            }
''')]
V["la-make-leaf"] = [(LANG, '''            let mut rec = RecExpr::<L>::default();
            rec.add(enode.clone());
            rec
        } else {''', '''            RecExpr::from(vec![enode.clone()])
        } else {''')]
V["la-make-order"] = [(LANG, '''        Signature {
            cvec: enode.eval(egraph.analysis.cvec_len, get_cvec),
            interval: enode.mk_interval(get_interval),
            simplest,
        }''', '''        let interval = enode.mk_interval(get_interval);
        let cvec = enode.eval(egraph.analysis.cvec_len, get_cvec);
        Signature {
            cvec,
            simplest,
            interval,
        }''')]
V["la-merge-cvec-helper"] = [(LANG, '''        if !to.cvec.is_empty() && !from.cvec.is_empty() {
            for i in 0..to.cvec.len() {
                match (to.cvec[i].clone(), from.cvec[i].clone()) {
                    (None, Some(_)) => {
                        to.cvec[i] = from.cvec[i].clone();
                        merge_a = true;
                    }
                    (Some(_), None) => {
                        merge_b = true;
                    }
                    (Some(x), Some(y)) => assert_eq!(x, y, "cvecs do not match!!"),
                    _ => (),
                }
            }
        }
''', '''        if !(to.cvec.is_empty() || from.cvec.is_empty()) {
            for i in 0..to.cvec.len() {
                match (&to.cvec[i], &from.cvec[i]) {
                    (None, None) => {}
                    (None, Some(v)) => {
                        to.cvec[i] = Some(v.clone());
                        merge_a = true;
                    }
                    (Some(_), None) => merge_b = true,
                    (Some(x), Some(y)) => assert_eq!(x, y, "cvecs do not match!!"),
                }
            }
        }
''')]
V["la-merge-cvec-zip"] = [(LANG, '''            for i in 0..to.cvec.len() {
                match (to.cvec[i].clone(), from.cvec[i].clone()) {
                    (None, Some(_)) => {
                        to.cvec[i] = from.cvec[i].clone();
                        merge_a = true;
                    }''', '''            for (mine, theirs) in to.cvec.iter_mut().zip(from.cvec.iter()) {
                match (mine.clone(), theirs.clone()) {
                    (None, Some(_)) => {
                        *mine = theirs.clone();
                        merge_a = true;
                    }''')]
V["la-merge-interval-helper"] = [(LANG, '''        let new_min = match (to.interval.low.as_ref(), from.interval.low.as_ref()) {
            (None, None) => None,
            (None, Some(y)) => Some(y.clone()),
            (Some(x), None) => Some(x.clone()),
            (Some(x), Some(y)) => Some(x.max(y).clone()),
        };
        let new_max = match (to.interval.high.as_ref(), from.interval.high.as_ref()) {
            (None, None) => None,
            (None, Some(y)) => Some(y.clone()),
            (Some(x), None) => Some(x.clone()),
            (Some(x), Some(y)) => Some(x.min(y).clone()),
        };
        let new_interval = Interval::new(new_min, new_max);
''', '''        let new_interval = intersect(&to.interval, &from.interval);
'''), (LANG, '''/// Characteristic Vector.''', '''fn intersect<T: Ord + Clone + Display>(a: &Interval<T>, b: &Interval<T>) -> Interval<T> {
    let low = match (&a.low, &b.low) {
        (Some(x), Some(y)) => Some(x.max(y).clone()),
        (x, y) => x.clone().or_else(|| y.clone()),
    };
    let high = match (&a.high, &b.high) {
        (Some(x), Some(y)) => Some(x.min(y).clone()),
        (Some(x), None) | (None, Some(x)) => Some(x.clone()),
        (None, None) => None,
    };
    Interval::new(low, high)
}

/// Characteristic Vector.''')]
V["la-merge-interval-first"] = [(LANG, '''        if cost_fn(&from.simplest) < cost_fn(&to.simplest) {
            to.simplest = from.simplest;
            merge_a = true;
        } else if to.simplest != from.simplest {
            merge_b = true;
        }

        if to.interval != new_interval {
            to.interval = new_interval;
            merge_a = true;
        }

        if to.interval != from.interval {
            merge_b = true;
        }
''', '''        if to.interval != new_interval {
            to.interval = new_interval;
            merge_a = true;
        }

        if to.interval != from.interval {
            merge_b = true;
        }

        let cheaper = cost_fn(&from.simplest) < cost_fn(&to.simplest);
        if cheaper {
            to.simplest = from.simplest;
            merge_a = true;
        } else if to.simplest != from.simplest {
            merge_b = true;
        }
''')]
V["la-merge-simplest-gt"] = [(LANG, '''        if cost_fn(&from.simplest) < cost_fn(&to.simplest) {''', '''        let (mine, theirs) = (cost_fn(&to.simplest), cost_fn(&from.simplest));
        if mine > theirs {''')]
V["la-merge-or"] = [(LANG, '''        if to.interval != from.interval {
            merge_b = true;
        }
''', '''        merge_b |= to.interval != from.interval;
''')]
V["la-modify-match"] = [(LANG, '''        let interval = &egraph[id].data.interval;
        if let Interval {
            low: Some(low),
            high: Some(high),
        } = interval
        {
            if low == high {
                let enode = L::mk_constant(low.clone(), egraph);
                let added = egraph.add(enode);
                egraph.union(id, added);
            }
        }''', '''        let interval = egraph[id].data.interval.clone();
        match (interval.low, interval.high) {
            (Some(low), Some(high)) if low == high => {
                let enode = L::mk_constant(low, egraph);
                let added = egraph.add(enode);
                egraph.union(id, added);
            }
            _ => (),
        }''')]
V["la-modify-helper"] = [(LANG, '''        let interval = &egraph[id].data.interval;
        if let Interval {
            low: Some(low),
            high: Some(high),
        } = interval
        {
            if low == high {
                let enode = L::mk_constant(low.clone(), egraph);
                let added = egraph.add(enode);
                egraph.union(id, added);
            }
        }''', '''        if let Some(value) = egraph[id].data.point() {
            let enode = L::mk_constant(value, egraph);
            let added = egraph.add(enode);
            egraph.union(id, added);
        }'''), (LANG, '''    pub fn is_defined(&self) -> bool {''', '''    fn point(&self) -> Option<L::Constant> {
        match (&self.interval.low, &self.interval.high) {
            (Some(low), Some(high)) if low == high => Some(low.clone()),
            _ => None,
        }
    }

    pub fn is_defined(&self) -> bool {''')]
V["la-isvar-matches"] = [(LANG, '''        self.to_var().is_some()''', '''        matches!(self.to_var(), Some(_))''')]
V["la-enode-iflet"] = [(LANG, '''        match self.to_var() {
            Some(var) => ENodeOrVar::Var(format!("?{}", var).parse().unwrap()),
            None => ENodeOrVar::ENode(self),
        }''', '''        if let Some(sym) = self.to_var() {
            let name = format!("?{}", sym);
            return ENodeOrVar::Var(name.parse().unwrap());
        }
        ENodeOrVar::ENode(self)''')]
V["la-allowed-loop"] = [(LANG, '''            pat.ast.as_ref().iter().all(|n| match n {
                ENodeOrVar::ENode(n) => n.is_allowed_op(),
                ENodeOrVar::Var(_) => true,
            })''', '''            for n in pat.ast.as_ref() {
                if let ENodeOrVar::ENode(n) = n {
                    if !n.is_allowed_op() {
                        return false;
                    }
                }
            }
            true''')]
V["la-allowed-any"] = [(LANG, '''            pat.ast.as_ref().iter().all(|n| match n {
                ENodeOrVar::ENode(n) => n.is_allowed_op(),
                ENodeOrVar::Var(_) => true,
            })''', '''            !pat.ast.as_ref().iter().any(|n| match n {
                ENodeOrVar::ENode(n) => !n.is_allowed_op(),
                ENodeOrVar::Var(_) => false,
            })''')]
V["la-allowed-chain"] = [(LANG, '''        let pattern_is_extractable = |pat: &Pattern<Self>| {
            pat.ast.as_ref().iter().all(|n| match n {
                ENodeOrVar::ENode(n) => n.is_allowed_op(),
                ENodeOrVar::Var(_) => true,
            })
        };
        pattern_is_extractable(lhs) && pattern_is_extractable(rhs)''', '''        lhs.ast
            .as_ref()
            .iter()
            .chain(rhs.ast.as_ref().iter())
            .all(|n| match n {
                ENodeOrVar::ENode(n) => n.is_allowed_op(),
                ENodeOrVar::Var(_) => true,
            })''')]
V["la-gen-iflet"] = [(LANG, '''        let mut rename_node = |node: &Self| match node.to_var() {
            Some(sym) => {
                let len = map.len();
                let var = map
                    .entry(sym)
                    .or_insert_with(|| format!("?{}", letter(len)).parse().unwrap());
                let s = var.to_string();
                Self::mk_var(s[1..].into())
            }
            None => node.clone(),
        };''', '''        let mut rename_node = |node: &Self| {
            if let Some(sym) = node.to_var() {
                if !map.contains_key(&sym) {
                    let fresh = format!("?{}", letter(map.len())).parse().unwrap();
                    map.insert(sym, fresh);
                }
                let s = map[&sym].to_string();
                Self::mk_var(s[1..].into())
            } else {
                node.clone()
            }
        };''')]
V["la-gen-loop"] = [(LANG, '''        let nodes: Vec<ENodeOrVar<Self>> = expr
            .as_ref()
            .iter()
            .map(|node| node.clone().to_enode_or_var())
            .collect();
        PatternAst::from(nodes).into()''', '''        let mut nodes: Vec<ENodeOrVar<Self>> = vec![];
        for node in expr.as_ref() {
            nodes.push(node.clone().to_enode_or_var());
        }
        PatternAst::from(nodes).into()''')]
V["la-inst-loop"] = [(LANG, '''        let nodes: Vec<_> = pattern
            .ast
            .as_ref()
            .iter()
            .map(|n| match n {
                ENodeOrVar::ENode(n) => n.clone(),
                ENodeOrVar::Var(v) => {
                    let s = v.to_string();
                    assert!(s.starts_with('?'));
                    Self::mk_var(s[1..].into())
                }
            })
            .collect();

        RecExpr::from(nodes)''', '''        let mut nodes = vec![];
        for n in pattern.ast.as_ref() {
            let node = match n {
                ENodeOrVar::ENode(n) => n.clone(),
                ENodeOrVar::Var(v) => {
                    let s = v.to_string();
                    assert!(s.starts_with('?'));
                    Self::mk_var(s[1..].into())
                }
            };
            nodes.push(node);
        }
        RecExpr::from(nodes)''')]
V["la-inst-recadd"] = [(LANG, '''            .map(|n| match n {
                ENodeOrVar::ENode(n) => n.clone(),
                ENodeOrVar::Var(v) => {
                    let s = v.to_string();
                    assert!(s.starts_with('?'));
                    Self::mk_var(s[1..].into())
                }
            })
            .collect();

        RecExpr::from(nodes)''', '''            .map(|n| match n {
                ENodeOrVar::ENode(n) => n.clone(),
                ENodeOrVar::Var(v) => Self::mk_pattern_var(v),
            })
            .collect();

        nodes.into()'''), (LANG, '''    fn score(lhs: &Pattern<Self>''', '''    /// The domain variable of the same name
    fn mk_pattern_var(v: &Var) -> Self {
        let name = v.to_string();
        assert!(name.starts_with('?'));
        Self::mk_var(name[1..].into())
    }

    fn score(lhs: &Pattern<Self>''')]
V["la-score-vars"] = [(LANG, '''        let mut vars: HashSet<Var> = Default::default();
        vars.extend(lhs.vars());
        vars.extend(rhs.vars());
''', '''        let vars: HashSet<Var> = lhs.vars().into_iter().chain(rhs.vars()).collect();
''')]
V["la-score-ops-iter"] = [(LANG, '''        let mut ops: HashSet<String> = Default::default();
        for node in lhs.ast.as_ref().iter().chain(rhs.ast.as_ref()) {
            if !node.is_leaf() {
                ops.insert(node.to_string());
            }
        }
''', '''        let ops: HashSet<String> = lhs
            .ast
            .as_ref()
            .iter()
            .chain(rhs.ast.as_ref())
            .filter(|node| !node.is_leaf())
            .map(|node| node.to_string())
            .collect();
''')]
V["la-score-consts-loop"] = [(LANG, '''        let num_consts = lhs
            .ast
            .as_ref()
            .iter()
            .chain(rhs.ast.as_ref())
            .filter(|n| match n {
                ENodeOrVar::ENode(n) => n.is_constant(),
                ENodeOrVar::Var(_) => false,
            })
            .count() as i32;
''', '''        let mut num_consts: i32 = 0;
        for n in lhs.ast.as_ref().iter().chain(rhs.ast.as_ref()) {
            if let ENodeOrVar::ENode(n) = n {
                if n.is_constant() {
                    num_consts += 1;
                }
            }
        }
''')]
V["la-score-consts-sides"] = [(LANG, '''        let num_consts = lhs
            .ast
            .as_ref()
            .iter()
            .chain(rhs.ast.as_ref())
            .filter(|n| match n {
                ENodeOrVar::ENode(n) => n.is_constant(),
                ENodeOrVar::Var(_) => false,
            })
            .count() as i32;
''', '''        let consts = |pat: &Pattern<Self>| {
            pat.ast
                .as_ref()
                .iter()
                .filter(|n| matches!(n, ENodeOrVar::ENode(n) if n.is_constant()))
                .count()
        };
        let num_consts = (consts(lhs) + consts(rhs)) as i32;
''')]
V["la-score-max"] = [(LANG, '''        [
            vars.len() as i32,
            -num_consts,
            -i32::max(l_size, r_size),
            -(l_size + r_size),
            -(ops.len() as i32),
        ]''', '''        let total = l_size + r_size;
        let larger = l_size.max(r_size);
        [
            vars.len() as i32,
            -num_consts,
            -larger,
            -total,
            -(ops.len() as i32),
        ]''')]
V["la-score-if"] = [(LANG, '''            -i32::max(l_size, r_size),''', '''            -(if l_size >= r_size { l_size } else { r_size }),''')]
V["la-score-negsum"] = [(LANG, '''            -(l_size + r_size),''', '''            -l_size - r_size,''')]

# ---- statics that keep nothing a result depends on
V["st-counter"] = [(RULE, '''        matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)''', '''        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)''')]
V["st-memo"] = [(RULE, '''        matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)''', '''        static SEEN: std::sync::Mutex<Vec<(String, String, bool)>> = std::sync::Mutex::new(Vec::new());
        let (l, r) = (self.lhs.to_string(), self.rhs.to_string());
        let mut seen = SEEN.lock().unwrap();
        if let Some((_, _, v)) = seen.iter().find(|(a, b, _)| *a == l && *b == r) {
            return *v;
        }
        let v = matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid);
        seen.push((l, r, v));
        v''')]
V["st-bv-static"] = [(BVF, '''                cfg.set_timeout_msec(1000);''', '''                static TIMEOUT_MS: u64 = 1000;
                cfg.set_timeout_msec(TIMEOUT_MS);''')]
V["st-bv-once"] = [(BVF, '''                cfg.set_timeout_msec(1000);''', '''                static TIMEOUT_MS: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
                cfg.set_timeout_msec(*TIMEOUT_MS.get_or_init(|| 1000));''')]

# ---- provided methods and derived implementations written out
V["ov-can-stop"] = [("src/enumo/scheduler.rs", '''        rewrite.search_with_limit(egraph, self.match_limit)
    }
''', '''        rewrite.search_with_limit(egraph, self.match_limit)
    }

    fn can_stop(&mut self, _iteration: usize) -> bool {
        let stop = true;
        stop
    }

    fn apply_rewrite(
        &mut self,
        _iteration: usize,
        egraph: &mut egg::EGraph<L, SynthAnalysis>,
        rewrite: &Rewrite<L, SynthAnalysis>,
        matches: Vec<egg::SearchMatches<L>>,
    ) -> usize {
        let applied = rewrite.apply(egraph, &matches);
        applied.len()
    }
''')]
V["ov-apply-matches"] = [("src/enumo/rule.rs", '''    fn vars(&self) -> Vec<Var> {
        self.rhs.vars()
    }
''', '''    fn vars(&self) -> Vec<Var> {
        self.rhs.vars()
    }

    fn apply_matches(
        &self,
        egraph: &mut EGraph<L, SynthAnalysis>,
        matches: &[egg::SearchMatches<L>],
        rule_name: Symbol,
    ) -> Vec<Id> {
        let mut added = vec![];
        for mat in matches {
            let ast = if egraph.are_explanations_enabled() {
                mat.ast.as_ref().map(|cow| cow.as_ref())
            } else {
                None
            };
            for subst in mat.substs.iter() {
                let ids = self.apply_one(egraph, mat.eclass, subst, ast, rule_name);
                added.extend(ids);
            }
        }
        added
    }
''')]
V["ov-bv-score"] = [("src/bv.rs", '''            fn to_var(&self) -> Option<Symbol> {''', '''            fn is_var(&self) -> bool {
                match self.to_var() {
                    Some(_) => true,
                    None => false,
                }
            }

            fn is_allowed_op(&self) -> bool {
                let r = true;
                r
            }

            fn custom_modify(_egraph: &mut EGraph<Self, SynthAnalysis>, _id: Id) {}

            fn to_var(&self) -> Option<Symbol> {''')]
V["ov-interval-eq"] = [("src/lib.rs", '''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Interval<T> {
    pub low: Option<T>,
    pub high: Option<T>,
}
''', '''#[derive(Debug, Clone, Eq)]
pub struct Interval<T> {
    pub low: Option<T>,
    pub high: Option<T>,
}

impl<T: PartialEq> PartialEq for Interval<T> {
    fn eq(&self, other: &Self) -> bool {
        self.high == other.high && self.low == other.low
    }
}
''')]
V["ov-interval-clone"] = [("src/lib.rs", '''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Interval<T> {
    pub low: Option<T>,
    pub high: Option<T>,
}
''', '''#[derive(Debug, PartialEq, Eq)]
pub struct Interval<T> {
    pub low: Option<T>,
    pub high: Option<T>,
}

impl<T: Clone> Clone for Interval<T> {
    fn clone(&self) -> Self {
        let Interval { low, high } = self;
        Self { low: low.clone(), high: high.clone() }
    }
}
''')]
V["ov-bv-eq"] = [("src/bv.rs", '''#[derive(Copy, Clone, Hash, PartialOrd, Ord, PartialEq, Eq, Serialize)]
#[serde(transparent)]
pub struct BV<const N: Inner>(pub Inner);
''', '''#[derive(Copy, Clone, Hash, PartialOrd, Ord, Eq, Serialize)]
#[serde(transparent)]
pub struct BV<const N: Inner>(pub Inner);

impl<const N: Inner> PartialEq for BV<N> {
    fn eq(&self, other: &Self) -> bool {
        !(self.0 != other.0)
    }
}
''')]
V["ov-filter-clone"] = [("src/enumo/filter.rs", '''#[derive(PartialEq, Eq, Clone, Debug)]
pub enum Filter {''', '''#[derive(PartialEq, Eq, Debug)]
pub enum Filter {'''), ("src/enumo/filter.rs", '''impl Filter {
    /// Whether the given''', '''impl Clone for Filter {
    fn clone(&self) -> Self {
        match self {
            Filter::MetricLt(m, n) => Filter::MetricLt(*m, *n),
            Filter::MetricEq(m, n) => Filter::MetricEq(*m, *n),
            Filter::Contains(p) => Filter::Contains(p.clone()),
            Filter::Excludes(p) => Filter::Excludes(p.clone()),
            Filter::Canon(v) => Filter::Canon(v.iter().cloned().collect()),
            Filter::And(fs) => Filter::And(fs.clone()),
            Filter::Or(fs) => Filter::Or(fs.clone()),
            Filter::Invert(f) => Filter::Invert(f.clone()),
        }
    }
}

impl Filter {
    /// Whether the given''')]
