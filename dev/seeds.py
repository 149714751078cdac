S = {}
def s(id, bug, pid, needs, breaks, body, prelude="toy"):
    S[id] = dict(bug=bug, pid=pid, needs=needs, breaks=breaks, body=body, prelude=prelude)

s("unknown-is-valid", "P01-unknown-ok", "P01",
  "a rule for which the language's validator answers Unknown (e.g. an SMT timeout)",
  "a rule the validator could not prove is treated as valid and selected into the final ruleset",
  '''
#[test]
fn demo() {
    let (r, _) = Rule::<Toy>::from_string("(+ ?a 13) ==> (+ 13 ?a)").unwrap();
    assert!(!r.is_valid(), "an undecided rule is reported valid");
    let mut c = Ruleset::<Toy>::default();
    c.add(r);
    let (chosen, invalid) = c.minimize(Ruleset::default(), Scheduler::Compress(lim()));
    assert_eq!(chosen.len(), 0);
    assert_eq!(invalid.len(), 1);
}
''')
s("defined-first-three", "P07-all-defined", "P07",
  "a class whose sample vector has its first defined value after the third position",
  "a class with a defined value counts as undefined, so rewrites silently skip it",
  '''
#[test]
fn demo() {
    let mut g = EG::default();
    let id = g.add(Toy::Lit(4));
    g[id].data.cvec = vec![None, None, None, None, Some(3), None];
    assert!(g[id].data.is_defined(), "a defined class is reported undefined");
    g[id].data.cvec = vec![None; 6];
    assert!(!g[id].data.is_defined());
}
''')
s("merge-unchecked-first", "P14-assert-partial", "P14",
  "two classes whose sample vectors contradict each other in the first position only are merged",
  "the contradiction goes unnoticed and an unsound merge survives",
  '''
#[test]
fn demo() {
    let mut g = EG::default();
    g.analysis.cvec_len = 3;
    let a = g.add(Toy::Var("a".into()));
    let b = g.add(Toy::Var("b".into()));
    let mut da = g[a].data.clone();
    let mut db = g[b].data.clone();
    da.cvec = vec![Some(1), Some(2), None];
    db.cvec = vec![Some(5), Some(2), Some(3)];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        SynthAnalysis { cvec_len: 3 }.merge(&mut da, db);
    }));
    assert!(r.is_err(), "contradicting samples were merged");
}
''')
s("simplest-plain-size", "P17-size", "P17",
  "a class holding a short term with an operator outside the domain and a longer one without",
  "the remembered simplest term contains an operator that is not in the domain",
  '''
#[test]
fn demo() {
    let mut g = EG::default();
    g.analysis.cvec_len = 3;
    let a = g.add(Toy::Var("a".into()));
    let h = g.add(Toy::Hide(a));
    let n = g.add(Toy::Neg(a));
    let nn = g.add(Toy::Neg(n));
    let mut dh = g[h].data.clone();
    let dn = g[nn].data.clone();
    dh.cvec = vec![];
    SynthAnalysis { cvec_len: 3 }.merge(&mut dh, dn);
    assert_eq!(dh.simplest.to_string(), "(~ (~ a))");
}
''')
s("match-skips-undefined-first", "P19-j-limit", "P19",
  "two classes that agree where both are defined, one of them undefined at the first sample",
  "a candidate pair required by the definition of sample matching is missed",
  '''
#[test]
fn demo() {
    let mut g = EG::default();
    g.analysis.cvec_len = 3;
    let a = g.add(Toy::Var("a".into()));
    let n = g.add(Toy::Neg(a));
    g[a].data.cvec = vec![Some(1), Some(2), Some(3)];
    g[n].data.cvec = vec![None, Some(2), Some(3)];
    let c = Ruleset::<Toy>::cvec_match(&g);
    assert!(c.len() > 0, "classes with matching samples were not paired");
}
''')
s("subsume-other-metric", "P29-subsume-met", "P29",
  "two size filters on different measures are stacked, the inner bound larger than ten",
  "one of the two filters is dropped, so forbidden terms are enumerated",
  '''
#[test]
fn demo() {
    fn measure(m: Metric, s: &Sexp) -> usize {
        match (m, s) {
            (Metric::Atoms, Sexp::Atom(_)) => 1,
            (_, Sexp::Atom(_)) => 0,
            (Metric::Atoms, Sexp::List(l)) => l.iter().map(|x| measure(m, x)).sum(),
            (_, Sexp::List(l)) => 1 + l.iter().map(|x| measure(m, x)).sum::<usize>(),
        }
    }
    let w = Workload::new(&["(+ a b)", "(+ (+ a b) c)", "x", "(f (f (f (f (f (f (f (f (f (f (f (f x))))))))))))", "(g a b c d e h i j k l m n o)"]);
    for n in [5usize, 11, 20] {
        let f = w.clone().filter(Filter::MetricLt(Metric::Atoms, n)).filter(Filter::MetricLt(Metric::Lists, 2));
        let g: Vec<Sexp> = w.force().into_iter()
            .filter(|s| measure(Metric::Atoms, s) < n && measure(Metric::Lists, s) < 2).collect();
        assert_eq!(f.force(), g);
        let f = w.clone().filter(Filter::MetricLt(Metric::Lists, n)).filter(Filter::MetricLt(Metric::Atoms, 3));
        let g: Vec<Sexp> = w.force().into_iter()
            .filter(|s| measure(Metric::Lists, s) < n && measure(Metric::Atoms, s) < 3).collect();
        assert_eq!(f.force(), g);
        let f = w.clone().filter(Filter::MetricLt(Metric::Lists, 2)).filter(Filter::MetricLt(Metric::Atoms, n));
        let g: Vec<Sexp> = w.force().into_iter()
            .filter(|s| measure(Metric::Atoms, s) < n && measure(Metric::Lists, s) < 2).collect();
        assert_eq!(f.force(), g);
    }
}
''')
s("list-pattern-prefix", "P31-len", "P31",
  "a list pattern shorter than the term it is compared with",
  "a pattern matches terms that have extra arguments",
  '''
#[test]
fn demo() {
    let w = Workload::new(&["(f a)", "(f a b)"]);
    let has = |p: &str| w.clone().filter(Filter::Contains(p.parse().unwrap())).force();
    let hasnt = |p: &str| w.clone().filter(Filter::Excludes(p.parse().unwrap())).force();
    assert_eq!(has("(f ?x)"), Workload::new(&["(f a)"]).force(), "a pattern of two elements matches a list of three");
    assert_eq!(hasnt("(f ?x)"), Workload::new(&["(f a b)"]).force());
}
''')
s("plug-by-prefix", "P32-prefix", "P32",
  "an atom that merely starts with the plugged name (x10 while plugging x1)",
  "atoms that are not the plugged name are replaced",
  '''
#[test]
fn demo() {
    let w = Workload::new(&["(f x1 x10)", "x12"]).plug("x1", &Workload::new(&["p", "q"]));
    assert_eq!(w.force(), Workload::new(&["(f p x10)", "(f q x10)", "x12"]).force());
}
''')
s("file-drops-repeat-reverse", "P39-bidir-drop", "P39",
  "a rule file that lists a rule and later the same rule as a bidirectional one",
  "reading the file loses the reverse direction",
  '''
#[test]
fn demo() {
    let d = std::env::temp_dir().join(format!("seed-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("rules.txt");
    std::fs::write(&f, "(+ ?a 0) ==> ?a\\n(+ ?a 0) <=> ?a\\n").unwrap();
    let rs = Ruleset::<Toy>::from_file(f.to_str().unwrap());
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(names(&rs), vec!["(+ ?a 0) ==> ?a", "?a ==> (+ ?a 0)"]);
}
''')
s("shr-rotates", "P42-shr", "P42",
  "a bit-vector narrower than its carrier is fine; the full 128-bit width is not",
  "a logical right shift brings low bits back in at the top",
  '''
#[test]
fn demo() {
    let one = ruler::BV::<128>::from(1);
    let three = ruler::BV::<128>::from(3);
    assert_eq!(three.my_shr(one), one, "3 >> 1");
    let b4 = ruler::BV::<4>::from(13);
    for k in 0..7 {
        let want = if k >= 4 { 0 } else { 13 >> k };
        assert_eq!(b4.my_shr(ruler::BV::<4>::from(k)), ruler::BV::<4>::from(want), "13 >> {}", k);
    }
}
''', prelude="bv")
s("product-three-columns", "P48-rows", "P48",
  "a sample table for four or more variables",
  "the cross product of sample values misses combinations",
  '''
#[test]
fn demo() {
    for n in 0..6usize {
        let t = self_product(&[0, 1, 2], n);
        assert_eq!(t.len(), n);
        let rows = 3usize.pow(n as u32);
        let mut seen = std::collections::BTreeSet::new();
        for r in 0..rows {
            seen.insert(t.iter().map(|c| c.get(r).cloned()).collect::<Vec<_>>());
        }
        assert!(t.iter().all(|c| c.len() == rows), "column length");
        assert_eq!(seen.len(), rows, "every combination once");
    }
}
''')
s("variables-by-prefix", "P36-vars-once", "P36",
  "a workload with a variable whose name is a prefix of another, listed later",
  "the shorter-named variable is never initialised with samples",
  '''
#[test]
fn demo() {
    let w = Workload::new(&["(+ ab (~ a))", "a"]);
    let g: EG = w.to_egraph();
    let a = g.lookup_expr(&"a".parse().unwrap()).unwrap();
    let ab = g.lookup_expr(&"ab".parse().unwrap()).unwrap();
    assert_eq!(g[ab].data.cvec.len(), 6);
    assert_eq!(g[a].data.cvec.len(), 6, "variable a has no samples");
}
''')
s("log-replaces-corrupt", "P49-parse-default", "P49",
  "the results file is not valid JSON when a row is added (e.g. after a crash in the middle of a write)",
  "all earlier rows are silently overwritten",
  '''
#[test]
fn demo() {
    let d = std::env::temp_dir().join(format!("seed-demo-{}", std::process::id()));
    std::fs::create_dir_all(d.join("nightly/data")).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let p = d.join("nightly/data/output.json");
    let torn = "[{\\"rows\\": 1}, {\\"rows\\": ";
    std::fs::write(&p, torn).unwrap();
    let rs = Ruleset::<Toy>::default();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        logger::write_baseline(&rs, "toy", &rs, "base", std::time::Duration::from_secs(1));
    }));
    let after = std::fs::read_to_string(&p).unwrap();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(after, torn, "the unreadable log was replaced");
}
''')
s("recursion-base-forgets-prior", "P27-noprior", "P27",
  "recursive synthesis reaching size one (the innermost step) with a non-empty prior ruleset",
  "the innermost step ignores the prior rules and learns them again",
  '''
#[test]
fn demo() {
    let lang = || recipe_utils::Lang::new(&["0"], &["a", "b"], &[&["~"], &["+"]]);
    let prior = || Ruleset::<Toy>::new(&["(~ (~ ?a)) ==> ?a", "?a ==> (~ (~ ?a))"]);
    for n in 1..3 {
        let got = recipe_utils::recursive_rules::<Toy>(Metric::Atoms, n, lang(), prior()).to_str_vec();
        for r in prior().to_str_vec() {
            assert!(got.contains(&r), "{} is not used at size {}", r, n);
        }
    }
}
''')
import bugs2 as _b2
def s2(id, bug, *a, **k):
    s(id, bug, *a, **k)
    S[id]["edits"] = _b2.V[bug]

  "two rules with the same left-hand side checked one after the other in one process, the first of them valid",
  "the verdict for the first right-hand side is given for the second, so an invalid rule is accepted",
  '''
#[test]
fn demo() {
    let (good, _) = Rule::<Toy>::from_string("(+ ?a ?b) ==> (+ ?b ?a)").unwrap();
    let (bad, _) = Rule::<Toy>::from_string("(+ ?a ?b) ==> (+ ?a ?a)").unwrap();
    assert!(good.is_valid());
    assert!(!bad.is_valid(), "an invalid rule is accepted after a valid one with the same left-hand side");
    assert!(good.is_valid());
}
''')
s2("filter-copy-shortens", "D30-filter-clone", "P30",
  "a canonical-form filter over more than sixteen variables that is copied before use (as every combinator does)",
  "the copy forgets the later variables and lets through terms that are not canonical",
  '''
#[test]
fn demo() {
    let vars: Vec<String> = (0..20).map(|i| format!("v{:02}", i)).collect();
    let f = Filter::Canon(vars);
    assert_eq!(f.clone(), f, "a copied filter differs from the original");
}
''')
s2("one-sided-intervals-equal", "D16-interval-eq", "P15",
  "two intervals unbounded on one side that differ in their bound on the other",
  "intervals that describe different sets compare as equal",
  '''
#[test]
fn demo() {
    let a = Interval::new(Some(1), None::<i64>);
    let b = Interval::new(Some(2), None::<i64>);
    assert!(a != b, "[1, oo) equals [2, oo)");
    let c = Interval::new(None::<i64>, Some(5));
    assert!(c != Interval::new(None::<i64>, Some(6)), "(-oo, 5] equals (-oo, 6]");
    assert!(c == Interval::new(None::<i64>, Some(5)));
    assert!(Interval::new(Some(1), Some(2)) != Interval::new(Some(1), Some(3)));
}
''')
s2("merge-hides-change", "C14-didmerge", "P14",
  "a merge in which only the first sample was unknown on one side and known on the other",
  "the e-graph is told nothing changed, so parents are not re-evaluated",
  '''
#[test]
fn demo() {
    let mut g = EG::default();
    let a = g.add(Toy::Var("a".into()));
    let mut to = g[a].data.clone();
    let mut from = g[a].data.clone();
    to.cvec = vec![None, Some(2), Some(3)];
    from.cvec = vec![Some(1), Some(2), Some(3)];
    to.simplest = RecExpr::default();
    from.simplest = RecExpr::default();
    to.simplest.add(Toy::Lit(1));
    from.simplest.add(Toy::Lit(1));
    let did = SynthAnalysis { cvec_len: 3 }.merge(&mut to, from);
    assert_eq!(to.cvec, vec![Some(1), Some(2), Some(3)]);
    assert!(did.0, "the left class changed but is reported unchanged");
}
''')
s2("log-drops-same-spec", "C49-dedup", "P49",
  "two results of the same kind for the same specification recorded one after the other",
  "the earlier row disappears from the log",
  '''
#[test]
fn demo() {
    let d = std::env::temp_dir().join(format!("seed-demo-{}", std::process::id()));
    std::fs::create_dir_all(d.join("nightly/data")).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let p = d.join("nightly/data/output.json");
    let rs = Ruleset::<Toy>::default();
    for k in 0..3 {
        logger::write_baseline(&rs, "toy", &rs, "base", std::time::Duration::from_secs(k));
    }
    let after: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(after.as_array().unwrap().len(), 3, "rows were dropped");
}
''')
s2("wide-literal-loses-bits", "N44-lit-hi", "P44",
  "a 128-bit literal with a bit set at position 96 or above",
  "the validator sees a smaller literal than the interpreter, and accepts an invalid rule",
  '''
ruler::impl_bv!(128);
#[test]
fn demo() {
    let big: Pattern<Bv> = "(+ ?a 1267650600228229401496703205376)".parse().unwrap();
    let a: Pattern<Bv> = "?a".parse().unwrap();
    let v = <Bv as SynthLanguage>::validate(&big, &a);
    assert!(!matches!(v, ValidationResult::Valid), "?a + 2^100 is validated as equal to ?a");
}
''', prelude="bv")
