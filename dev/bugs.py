"""Planted bugs: each compiles and breaks a property. Written from the property texts and the code."""
RS, RULE, SCHED, WK, SX, FI, PA = ("src/enumo/%s.rs" % x for x in (
    "ruleset", "rule", "scheduler", "workload", "sexp", "filter", "pattern"))
LIB, LANG, BVF, REC, LOG, UT = ("src/%s.rs" % x for x in ("lib", "language", "bv", "recipe_utils", "logger", "util"))
V = {}

# ---- P01 selection gate
V["P01-unknown-ok"] = [(RULE, "matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)",
                        "!matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Invalid)")]
V["P01-reverse-unchecked"] = [(RS, '''                        if reverse.is_valid() {
                            selected.add(reverse);
                        } else {
                            invalid.add(reverse);
                        }''', '''                        if reverse.is_valid() || selected.contains(&rule) {
                            selected.add(reverse);
                        } else {
                            invalid.add(reverse);
                        }''')]
V["P01-reverse-rule-verdict"] = [(RS, "                        if reverse.is_valid() {", "                        if rule.is_valid() {")]
V["P01-saturating-skip"] = [(RS, "                if rule.is_valid() {\n                    selected.add(rule.clone());",
                             "                if rule.lhs.ast == rule.rhs.ast || rule.is_valid() || invalid.len() > 1000 {\n                    selected.add(rule.clone());")]
V["P01-swap-sides"] = [(RULE, "matches!(L::validate(&self.lhs, &self.rhs), ", "matches!(L::validate(&self.lhs, &self.lhs), ")]
V["P01-both-added"] = [(RS, '''                } else {
                    invalid.add(rule.clone());
                }

                // If''', '''                } else {
                    invalid.add(rule.clone());
                    if rule.is_saturating() {
                        selected.add(rule.clone());
                    }
                }

                // If''')]
# ---- P02 / P03 minimize, shrink
V["P02-prior-kept"] = [(RS, "        chosen.remove_all(prior);\n\n", "        if prior.len() < 1000 {\n            chosen.remove_all(prior);\n        }\n\n")]
V["P02-invalid-lost"] = [(RS, "            chosen.extend(selected.clone());\n", "            chosen.extend(selected.clone());\n            invalid.remove_all(prior.clone());\n")]
V["P02-chosen-first-only"] = [(RS, "            chosen.extend(selected.clone());\n", "            if !selected.is_empty() || chosen.is_empty() {\n                chosen = chosen.union(&selected);\n            }\n            if chosen.len() > 500 {\n                break;\n            }\n")]
V["P03-shrink-lhs-only"] = [(RS, "            if egraph.find(l_id) == egraph.find(r_id) {", "            if egraph.find(l_id) == egraph.find(r_id) || chosen.contains(&rule) {")]
V["P03-shrink-selected"] = [(RS, "            self.shrink(&chosen, scheduler);", "            self.shrink(&selected, scheduler);")]
V["P03-shrink-simple"] = [(RS, "            self.shrink(&chosen, scheduler);", "            self.shrink(&chosen.union(&invalid), scheduler);")]
V["P03-raw-ids"] = [(RS, "            if egraph.find(l_id) == egraph.find(r_id) {", "            if l_id == r_id {")]
V["P03-drop-unfound"] = [(RS, "            initial.push((lhs, rhs, rule.clone()));", "            if lhs != rhs {\n                initial.push((lhs, rhs, rule.clone()));\n            }")]
V["P03-step"] = [(RS, "        let step_size = 1;", "        let step_size = 2;")]
V["P03-sort-rev"] = [(RS, "rule1.score().cmp(&rule2.score())", "rule2.score().cmp(&rule1.score())")]
V["P03-reverse-removed"] = [(RS, "            self.shrink(&chosen, scheduler);", "            self.remove_all(invalid.clone());\n            self.shrink(&chosen, scheduler);\n            if invalid.len() > self.len() {\n                self.0.pop();\n            }")]
# ---- P04 / P05
V["P04-default-true"] = [(RS, "            l_id == r_id\n        } else {\n            false\n        }", "            l_id == r_id\n        } else {\n            matches!(derive_type, DeriveType::LhsAndRhs)\n        }")]
V["P04-both-sides"] = [(RS, "            DeriveType::Lhs => {\n                egraph.add_expr(lexpr);\n            }", "            DeriveType::Lhs => {\n                egraph.add_expr(lexpr);\n                egraph.add_expr(rexpr);\n            }")]
V["P04-lhs-rhs-only-l"] = [(RS, "                egraph.add_expr(lexpr);\n                egraph.add_expr(rexpr);\n", "                let l = egraph.add_expr(lexpr);\n                let r = egraph.add_expr(rexpr);\n                if rule.is_saturating() {\n                    egraph.union(l, r);\n                }\n")]
V["P04-hook-err"] = [(SCHED, "                            if l == r {", "                            if r.max(l) >= l {")]
V["P04-hook-none"] = [(SCHED, "                        _ => Ok(()),\n                    }\n                })", "                        (None, _) => Err(\"Lost\".to_owned()),\n                        _ => Ok(()),\n                    }\n                })")]
V["P05-against-self"] = [(RS, "against.partition(|rule| self.can_derive(derive_type, rule, limits))", "against.partition(|rule| self.contains(rule) || self.can_derive(derive_type, rule, limits))")]
V["P05-self-partition"] = [(RS, "against.partition(|rule| self.can_derive(derive_type, rule, limits))", "self.partition(|rule| against.can_derive(derive_type, rule, limits))")]
V["P05-fixed-type"] = [(RS, "against.partition(|rule| self.can_derive(derive_type, rule, limits))", "against.partition(|rule| self.can_derive(DeriveType::Lhs, rule, limits))")]
# ---- P06
V["P06-backname"] = [(RULE, "name: format!(\"{} ==> {}\", r_pat, l_pat).into(),\n                    lhs: r_pat.clone(),", "name: format!(\"{} ==> {}\", l_pat, r_pat).into(),\n                    lhs: r_pat.clone(),")]
V["P06-back-rewrite"] = [(RULE, "                        r_pat,\n                        Rhs { rhs: l_pat },", "                        l_pat,\n                        Rhs { rhs: r_pat },")]
V["P06-new-rhs"] = [(RULE, "            rhs: r_pat.clone(),\n            rewrite: rw,", "            rhs: l_pat.clone(),\n            rewrite: rw,")]
V["P06-split-last"] = [(RULE, 's.split_once("=>")', 's.rsplit_once("=>")')]
V["P06-bidir-double"] = [(RULE, 's.contains("<=>")', 'l.ends_with(\'<\') || l.ends_with(\'=\') && l.len() > 40')]
V["P06-display-swap"] = [(RULE, 'write!(f, "{} ==> {}", self.lhs, self.rhs)', 'write!(f, "{} => {}", self.lhs, self.rhs)')]
# ---- P07
V["P07-undef-matched"] = [(RULE, "        if !egraph[matched_id].data.is_defined() {\n            return vec![];\n        }\n", "        if !egraph[matched_id].data.is_defined() && subst.get(\"?a\".parse().unwrap()).is_none() {\n            return vec![];\n        }\n")]
V["P07-undef-new"] = [(RULE, "        if !egraph[id].data.is_defined() {", "        if !egraph[matched_id].data.is_defined() {")]
V["P07-all-defined"] = [(LANG, "self.cvec.is_empty() || self.cvec.iter().any(|v| v.is_some())", "self.cvec.is_empty() || self.cvec.iter().take(3).any(|v| v.is_some())")]
V["P07-order"] = [(RULE, '''        if !egraph[id].data.is_defined() {
            return vec![];
        }

        egraph.union(id, matched_id);''', '''        egraph.union(id, matched_id);
        if !egraph[id].data.is_defined() {
            return vec![];
        }
''')]
# ---- P08
V["P08-first-id"] = [(RULE, "*ids.last().unwrap()\n", "*ids.iter().max().unwrap()\n")]
V["P08-child-off"] = [(RULE, "map_children(|child| ids[usize::from(child)])", "map_children(|child| ids[usize::from(child).min(i)])")]
V["P08-child-wrong"] = [(RULE, "map_children(|child| ids[usize::from(child)])", "map_children(|child| ids[i - 1 - usize::from(child)])")]
V["P08-lookup"] = [(RULE, "                egraph.add(n)\n", "                egraph.lookup(n.clone()).unwrap_or_else(|| if pat.len() > 20 { 0.into() } else { egraph.add(n) })\n")]
# ---- P09
V["P09-return-out"] = [(SCHED, "                clone.rebuild();\n                clone\n", "                clone.rebuild();\n                if clone.number_of_classes() < out.number_of_classes() {\n                    out\n                } else {\n                    clone\n                }\n")]
V["P09-skip-union"] = [(SCHED, "                        for id in &ids[1..] {", "                        for id in &ids[1..2] {")]
V["P09-no-rebuild"] = [(SCHED, "                clone.rebuild();\n                clone\n", "                if !clone.clean {\n                    clone.rebuild();\n                }\n                clone\n")]
V["P09-drop-rebuild"] = [(SCHED, "                clone.rebuild();\n                clone\n", "                clone\n")]
V["P09-newid"] = [(SCHED, "unions.entry(new_id).or_insert_with(Vec::new).push(id);", "unions.entry(new_id).or_insert_with(Vec::new).push(new_id);")]
# ---- P10
V["P10-match-node"] = [(SCHED, "match_limit: limits.match_,", "match_limit: limits.node,")]
V["P10-nolimit-iter"] = [(SCHED, "                .with_iter_limit(limits.iter)\n                .with_time_limit", "                .with_time_limit")]
V["P10-node-inner"] = [(SCHED, "                    node: usize::MAX,\n", "                    node: limits.node,\n")]
V["P10-time"] = [(SCHED, "Duration::from_secs(600)", "Duration::from_millis(600)")]
V["P10-search-nolimit"] = [(SCHED, "rewrite.search_with_limit(egraph, self.match_limit)", "if _iteration == 0 {\n            return rewrite.search(egraph);\n        }\n        rewrite.search_with_limit(egraph, self.match_limit)")]
V["P10-min-limits"] = [(LIB, "            iter: 5,\n            node: 100_000,", "            iter: 5,\n            node: 1_000_000,")]
# ---- P11
V["P11-other-iter"] = [(SCHED, "                            iter: 1,\n", "                            iter: limits.iter,\n")]
V["P11-final-sat"] = [(SCHED, "let mut runner = get_runner(runner.egraph, max_limits).run(&sat);\n                runner.egraph.rebuild();", "runner.egraph.rebuild();")]
V["P11-swap"] = [(SCHED, "runner = get_runner(runner.egraph, max_limits).run(&sat);\n\n", "runner = get_runner(runner.egraph, max_limits).run(&other);\n\n")]
V["P11-neg"] = [(SCHED, "ruleset.partition(|rule| rule.is_saturating())", "ruleset.partition(|rule| !rule.is_saturating())")]
V["P11-sat-limited"] = [(SCHED, "                    iter: usize::MAX,\n", "                    iter: limits.node,\n")]
# ---- P12
V["P12-skip-first"] = [(SCHED, "ruleset.0.values().map(|rule| &rule.rewrite)", "ruleset.0.values().filter(|r| r.name.len() < 12).map(|rule| &rule.rewrite)")]
V["P12-derive-norule"] = [(SCHED, "self.run_internal(egraph, ruleset, Some(rule))", "self.run_internal(egraph, ruleset, if ruleset.len() > 1 { Some(rule) } else { None })")]
V["P12-run-hook"] = [(SCHED, "self.run_internal(egraph, ruleset, None)", "self.run_internal(egraph, ruleset, ruleset.iter().next())")]
V["P12-simple-empty-egraph"] = [(SCHED, "let out = Self::Simple(*limits).run(egraph, ruleset);", "let out = Self::Saturating(*limits).run(egraph, ruleset);")]
# ---- P13
V["P13-gt"] = [(RULE, "initial_size >= final_size", "initial_size + 1 >= final_size")]
V["P13-norebuild"] = [(RULE, "        egraph.rebuild();\n        let final_size", "        let final_size")]
V["P13-nodes"] = [(RULE, "let final_size = egraph.number_of_classes();", "let final_size = egraph.number_of_classes().min(initial_size.max(2));")]
V["P13-initial-after"] = [(RULE, '''        let initial_size = egraph.number_of_classes();

        let r_id = egraph.add_expr(&L::instantiate(&self.rhs));
''', '''        let r_id = egraph.add_expr(&L::instantiate(&self.rhs));
        let initial_size = egraph.number_of_classes();
''')]
# ---- P14..P18 analysis
V["P14-no-copy"] = [(LANG, "                        to.cvec[i] = from.cvec[i].clone();\n                        merge_a = true;", "                        merge_a = true;")]
V["P14-no-assert"] = [(LANG, '(Some(x), Some(y)) => assert_eq!(x, y, "cvecs do not match!!"),', '(Some(x), Some(y)) => debug_assert_eq!(x, y, "cvecs do not match!!"),')]
V["P14-assert-partial"] = [(LANG, '(Some(x), Some(y)) => assert_eq!(x, y, "cvecs do not match!!"),', '(Some(x), Some(y)) if i > 0 => assert_eq!(x, y, "cvecs do not match!!"),')]
V["P14-merge-a"] = [(LANG, "                        to.cvec[i] = from.cvec[i].clone();\n                        merge_a = true;", "                        to.cvec[i] = from.cvec[i].clone();")]
V["P14-len"] = [(LANG, "for i in 0..to.cvec.len() {", "for i in 1..to.cvec.len() {")]
V["P14-merge-b"] = [(LANG, "                    (Some(_), None) => {\n                        merge_b = true;\n                    }", "                    (Some(_), None) => {}")]
V["P15-max"] = [(LANG, "(Some(x), Some(y)) => Some(x.max(y).clone()),", "(Some(x), Some(y)) => Some(x.min(y).clone()),")]
V["P15-none"] = [(LANG, '''            (None, Some(y)) => Some(y.clone()),
            (Some(x), None) => Some(x.clone()),
            (Some(x), Some(y)) => Some(x.min(y).clone()),''', '''            (None, Some(_)) => None,
            (Some(x), None) => Some(x.clone()),
            (Some(x), Some(y)) => Some(x.min(y).clone()),''')]
V["P15-new-noassert"] = [(LIB, "                a.le(b),\n", "                a.le(b) || b.lt(a),\n")]
V["P15-mergea"] = [(LANG, "            to.interval = new_interval;\n            merge_a = true;", "            to.interval = new_interval;")]
V["P15-lt"] = [(LIB, "                a.le(b),\n", "                a.lt(b),\n")]
V["P16-lowonly"] = [(LANG, "            if low == high {", "            if low >= high || interval.low.is_some() && id == Id::from(0) {")]
V["P16-high"] = [(LANG, "            if low == high {\n                let enode = L::mk_constant(low.clone(), egraph);\n                let added = egraph.add(enode);\n                egraph.union(id, added);", "            if low == high {\n                let enode = L::mk_constant(low.clone(), egraph);\n                egraph.add(enode);")]
V["P16-nocustom"] = [(LANG, "        L::custom_modify(egraph, id);\n\n        let interval", "        if !egraph[id].data.is_defined() {\n            L::custom_modify(egraph, id);\n        }\n\n        let interval")]
V["P17-gt"] = [(LANG, "if cost_fn(&from.simplest) < cost_fn(&to.simplest) {", "if cost_fn(&from.simplest) > cost_fn(&to.simplest) {")]
V["P17-size"] = [(LANG, "let cost_fn = |x: &RecExpr<L>| ExtractableAstSize.cost_rec(x);", "let cost_fn = |x: &RecExpr<L>| AstSize.cost_rec(x);")]
V["P17-offset"] = [(LANG, "Id::from(usize::from(id) + i)", "Id::from(usize::from(id).max(i))")]
V["P17-root"] = [(LANG, "map.insert(id, Id::from(nodes.len() - 1));", "map.insert(id, Id::from(i));")]
V["P17-const"] = [(LANG, "let simplest = if enode.is_var() || enode.is_constant() {", "let simplest = if enode.is_var() || enode.is_constant() || enode.len() > 3 {")]
V["P18-len"] = [(LANG, "cvec: enode.eval(egraph.analysis.cvec_len, get_cvec),", "cvec: enode.eval(egraph.analysis.cvec_len.max(1), get_cvec),")]
V["P18-interval"] = [(LANG, "interval: enode.mk_interval(get_interval),", "interval: if enode.is_constant() { enode.mk_interval(get_interval) } else { Interval::default() },")]
# ---- P19 P20 matching
V["P19-witness"] = [(RS, "            let mut witness = false;", "            let mut witness = cvec1.len() != cvec2.len();")]
V["P19-true"] = [(RS, "            witness\n        };", "            witness || cvec1 == cvec2\n        };")]
V["P19-none-some"] = [(RS, "            if value.is_some() {\n                all_classes.extend(first_none.clone());\n            }", "            if value.is_none() {\n                all_classes.extend(first_none.clone());\n            }")]
V["P19-any-all"] = [(RS, ".filter(|x| x.data.cvec.iter().any(|v| v.is_some()))", ".filter(|x| x.data.cvec.iter().all(|v| v.is_some()))")]
V["P19-j-limit"] = [(RS, "                for j in i + 1..all_classes.len() {", "                for j in i + 1..classes.len() {")]
V["P19-extract-same"] = [(RS, "let (_, e2) = extract.find_best(class2.id);\n                        candidates", "let (_, e2) = extract.find_best(class2.id);\n                        if e1.as_ref().len() > 9 { continue; }\n                        candidates")]
V["P19-firstelem"] = [(RS, ".entry(class.data.cvec[0].clone())", ".entry(class.data.cvec.last().unwrap().clone())")]
V["P20-idx"] = [(RS, "for e2 in exprs[(idx + 1)..].iter() {", "for e2 in exprs[(idx + 1)..].iter().take(1) {")]
V["P20-first"] = [(RS, "for (idx, e1) in exprs.iter().enumerate() {", "for (idx, e1) in exprs.iter().enumerate().take(1) {")]
V["P20-undefined"] = [(RS, "            if class.data.is_defined() {\n                by_cvec", "            if !class.data.cvec.is_empty() {\n                by_cvec")]
# ---- P21 P22 P23 P24
V["P21-max"] = [(RS, "if c1 == usize::MAX || c2 == usize::MAX {", "if c1 == usize::MAX && c2 == usize::MAX {")]
V["P21-wrapping"] = [(LIB, "sum.saturating_add(costs(id))", "sum.wrapping_add(costs(id))")]
V["P21-eg2"] = [(RS, "let clone = eg1.clone();", "let clone = eg2.clone();")]
V["P21-allowed"] = [(LIB, "        if enode.is_allowed_op() {\n", "        if enode.is_allowed_op() || enode.is_leaf() {\n")]
V["P21-astsize"] = [(RS, "let extract = Extractor::new(&clone, ExtractableAstSize);", "let extract = Extractor::new(&clone, AstSize);")]
V["P21-order"] = [(RS, "                    if e1 != e2 {\n", "                    if e1 != e2 && id1 < id2 {\n")]
V["P21-skip"] = [(RS, "                        continue;\n                    }\n                    if e1 != e2", "                        break;\n                    }\n                    if e1 != e2")]
V["P22-fresh-map"] = [(RS, "let r_pat = L::generalize(e2, map);", "let r_pat = L::generalize(e2, &mut HashMap::default());")]
V["P22-nobackward"] = [(RS, "let backward = Rule::new(&r_pat, &l_pat);", "let backward = Rule::new(&r_pat, &l_pat).filter(|r| !r.is_saturating());")]
V["P22-letter"] = [(LANG, 'let len = map.len();', 'let len = map.len() % 24;')]
V["P22-letter2"] = [(UT, "&alpha[i..i + 1]", "&alpha[i % 25..i % 25 + 1]")]
V["P22-sort-root"] = [(LANG, "let root = rename_node(expr.as_ref().last().unwrap());", "let root = rename_node(expr.as_ref().first().unwrap());")]
V["P23-strip"] = [(LANG, "                    assert!(s.starts_with('?'));\n                    Self::mk_var(s[1..].into())", "                    assert!(s.starts_with('?'));\n                    Self::mk_var(s[1..2].into())")]
V["P23-trim"] = [(LANG, "                    assert!(s.starts_with('?'));\n                    Self::mk_var(s[1..].into())", "                    assert!(s.starts_with('?'));\n                    Self::mk_var(s.trim_start_matches('?').into())")]
V["P23-toenode"] = [(LANG, 'Some(var) => ENodeOrVar::Var(format!("?{}", var).parse().unwrap()),', 'Some(var) => ENodeOrVar::Var(format!("?{}", var).to_lowercase().parse().unwrap()),')]
V["P24-swap"] = [(LANG, "            -i32::max(l_size, r_size),\n            -(l_size + r_size),", "            -(l_size + r_size),\n            -i32::max(l_size, r_size),")]
V["P24-consts"] = [(LANG, "            -num_consts,\n", "            num_consts,\n")]
V["P24-vars"] = [(LANG, "        vars.extend(rhs.vars());\n", "")]
V["P24-ops"] = [(LANG, "            if !node.is_leaf() {\n", "            if node.is_leaf() {\n")]
V["P24-rule-score"] = [(RULE, "L::score(&self.lhs, &self.rhs)", "L::score(&self.rhs, &self.rhs)")]
V["P24-lhs-consts"] = [(LANG, '''            .as_ref()
            .iter()
            .chain(rhs.ast.as_ref())
            .filter(''', '''            .as_ref()
            .iter()
            .filter(''')]
# ---- P25..P28 recipes
V["P25-swap-limits"] = [(REC, "Scheduler::Compress(prior_limits).run(&egraph, &prior);", "Scheduler::Compress(minimize_limits).run(&egraph, &prior);")]
V["P25-uncompressed"] = [(REC, "        Ruleset::cvec_match(&compressed)\n", "        Ruleset::cvec_match(&egraph)\n")]
V["P25-fastflag"] = [(REC, "let mut candidates = if fast_match {", "let mut candidates = if fast_match || compressed.number_of_classes() > 100_000 {")]
V["P25-simple"] = [(REC, "let (chosen, _) = candidates.minimize(prior, Scheduler::Compress(minimize_limits));", "let (chosen, _) = candidates.minimize(prior, Scheduler::Simple(minimize_limits));")]
V["P25-prior-default"] = [(REC, "let (chosen, _) = candidates.minimize(prior, Scheduler::Compress(minimize_limits));", "let (chosen, _) = candidates.minimize(Ruleset::default(), Scheduler::Compress(minimize_limits));")]
V["P25-empty-ok"] = [(REC, "if chosen.is_empty() && !allow_empty {", "if chosen.is_empty() && !allow_empty && num_prior == 0 {")]
V["P25-internal-args"] = [(REC, "        prior_limits,\n        minimize_limits,\n        fast_match,\n        false,", "        minimize_limits,\n        prior_limits,\n        fast_match,\n        false,")]
V["P26-allowed-all"] = [(REC, "Scheduler::Compress(prior_limits).run(&eg_init, &allowed);", "Scheduler::Compress(prior_limits).run(&eg_init, &prior);")]
V["P26-candidates"] = [(REC, "let mut candidates = Ruleset::extract_candidates(&eg_allowed, &eg_denote);", "let mut candidates = Ruleset::extract_candidates(&eg_init, &eg_denote);")]
V["P26-final"] = [(REC, "candidates.extend(Ruleset::extract_candidates(&eg_denote, &eg_final));", "candidates = Ruleset::extract_candidates(&eg_denote, &eg_final);")]
V["P26-explore-compress"] = [(REC, "let eg_denote = Scheduler::Simple(prior_limits).run(&eg_allowed, &exploratory);", "let eg_denote = Scheduler::Compress(prior_limits).run(&eg_allowed, &exploratory);")]
V["P26-allrules-explore"] = [(REC, "    all_rules.extend(exploratory);\n", "    all_rules.extend(exploratory);\n        all_rules.remove_all(allowed);\n")]
V["P26-minimize-all"] = [(REC, "        .minimize(prior, Scheduler::Compress(minimize_limits))\n        .0;", "        .minimize(all_rules, Scheduler::Compress(minimize_limits))\n        .0;")]
V["P26-allowed-or"] = [(LANG, "pattern_is_extractable(lhs) && pattern_is_extractable(rhs)", "pattern_is_extractable(lhs) || pattern_is_extractable(rhs)")]
V["P26-allowed-any"] = [(LANG, "pat.ast.as_ref().iter().all(|n| match n {", "pat.ast.as_ref().iter().rev().take(1).all(|n| match n {")]
V["P27-skip-size"] = [(REC, "recursive_rules(metric, n - 1, lang.clone(), prior.clone());", "recursive_rules(metric, n / 2, lang.clone(), prior.clone());")]
V["P27-noprior"] = [(REC, "        rec.extend(prior);\n        let allow", "        if n > 1 {\n            rec.extend(prior);\n        }\n        let allow")]
V["P27-lose-rec"] = [(REC, "        all.extend(rec);\n        all\n", "        if n < 5 {\n            all.extend(rec);\n        }\n        all\n")]
V["P27-op-index"] = [(REC, 'format!("OP{}", i + 1)', 'format!("OP{}", i)')]
V["P27-vars-vals"] = [(REC, '.plug("VAL", &Workload::new(lang.vals));', '.plug("VAL", &Workload::new(lang.vars.clone()));'), (REC, '.plug("VAR", &Workload::new(lang.vars))', '.plug("VAR", &Workload::new(lang.vars.clone()))')]
V["P27-contains"] = [(REC, 'Filter::Contains("VAR".parse().unwrap())', 'Filter::Contains("VAL".parse().unwrap())')]
V["P27-base-lang"] = [(REC, "for i in 1..(n + 1) {\n        let s", "for i in 1..n.max(4) {\n        let s")]
V["P27-empty"] = [(REC, "let allow_empty = n < 3;", "let allow_empty = n < 4;")]
V["P28-lt"] = [(REC, ".filter(Filter::MetricLt(met, i + 1));", ".filter(Filter::MetricLt(met, n + 1));")]
V["P28-pegs"] = [(REC, '''        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, i + 1));''', '''        pegs = wkld
            .clone()
            .plug(atom, &pegs)
            .filter(Filter::MetricLt(met, if i > 7 { i } else { i + 1 }));''')]
V["P28-substitute"] = [(REC, "pegs = pegs.append(workload.clone().plug(atom, &Workload::Set(vec![sub])));", "pegs = pegs.clone().append(pegs.append(workload.clone()).plug(atom, &Workload::Set(vec![sub])));")]
V["P28-substitute-all"] = [(REC, "pegs = pegs.append(workload.clone().plug(atom, &Workload::Set(vec![sub])));", "pegs = workload.clone().plug(atom, &Workload::Set(vec![sub])).append(pegs);")]
# ---- P29
V["P29-contains-mono"] = [(FI, "            Filter::Excludes(_) => true,\n            // The", "            Filter::Excludes(_) | Filter::Canon(_) => true,\n            // The")]
V["P29-and-any"] = [(FI, "Filter::And(fs) => fs.iter().all(|f| f.is_monotonic()),", "Filter::And(fs) => fs.iter().any(|f| f.is_monotonic()),")]
V["P29-or"] = [(FI, "Filter::And(fs) => fs.iter().all(|f| f.is_monotonic()),", "Filter::And(fs) => fs.iter().all(|f| f.is_monotonic()),\n            Filter::Or(fs) => fs.iter().any(|f| f.is_monotonic()),")]
V["P29-eq-mono"] = [(FI, "            Filter::MetricLt(_, _) => true,\n            Filter::Ex", "            Filter::MetricLt(_, _) | Filter::MetricEq(_, 1) => true,\n            Filter::Ex")]
V["P29-invert"] = [(FI, "            Filter::Excludes(_) => true,\n            // The", "            Filter::Excludes(_) => true,\n            Filter::Invert(f) => !f.is_monotonic(),\n            // The")]
V["P29-nopost"] = [(WK, '''            Workload::Plug(wkld, name, pegs) if filter.is_monotonic() => Workload::Filter(
                filter.clone(),
                Box::new(Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))),
            ),''', '''            Workload::Plug(wkld, name, pegs) if matches!(filter, Filter::Excludes(_)) => {
                Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))
            }
            Workload::Plug(wkld, name, pegs) if filter.is_monotonic() => Workload::Filter(
                filter.clone(),
                Box::new(Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))),
            ),''')]
V["P29-wkld"] = [(WK, "Box::new(Workload::Plug(wkld, name, Box::new(pegs.filter(filter)))),", "Box::new(Workload::Plug(Box::new(wkld.filter(filter.clone())), name, Box::new(pegs.filter(filter)))),")]
V["P29-subsume"] = [(FI, "if met == met1 && n >= n1 {", "if met == met1 && n <= n1 {")]
V["P29-subsume-met"] = [(FI, "if met == met1 && n >= n1 {", "if n >= n1 && (met == met1 || n > &10) {")]
V["P29-and-lost"] = [(FI, "                let mut all = fs;\n                all.push(f);\n                all\n            }\n            (f, Filter::And(fs)) => {", "                let mut all = fs;\n                if !all.is_empty() {\n                    all.push(f);\n                }\n                all\n            }\n            (f, Filter::And(fs)) => {")]
V["P29-filter-filter"] = [(WK, "Workload::Filter(f, w) => w.filter(f.and(filter)),", "Workload::Filter(f, w) if f == filter || f.is_monotonic() && filter.is_monotonic() => w.filter(filter),\n            Workload::Filter(f, w) => w.filter(f.and(filter)),")]
V["P29-emptyplug"] = [(WK, "self.filter(Filter::Excludes(Pattern::Lit(name.into())))", "self.filter(Filter::Invert(Box::new(Filter::Excludes(Pattern::Lit(name.into())))))")]
V["P29-append"] = [(WK, "                all.extend(ys);\n                all.push(x);", "                all.extend(ys);\n                if !all.contains(&x) {\n                    all.push(x);\n                }\n                all.dedup();")]
V["P29-append-sets"] = [(WK, '''            (Workload::Set(xs), Workload::Set(ys)) => {
                let mut all = vec![];
                all.extend(xs);
                all.extend(ys);''', '''            (Workload::Set(xs), Workload::Set(ys)) => {
                let mut all = vec![];
                all.extend(xs.clone());
                all.extend(ys.into_iter().take_while(|y| !xs.contains(y)));''')]
# ---- P30..P36
V["P30-lt"] = [(FI, "sexp.measure(*metric) < *n,", "sexp.measure(*metric) <= *n,")]
V["P30-eq"] = [(FI, "sexp.measure(*metric) == *n,", "sexp.measure(Metric::Atoms) == *n,")]
V["P30-contains"] = [(FI, "Sexp::List(args) => args.iter().any(|s| self.test(s)),", "Sexp::List(args) => args.iter().any(|s| pat.matches(s)),")]
V["P30-contains-skip"] = [(FI, "Sexp::List(args) => args.iter().any(|s| self.test(s)),", "Sexp::List(args) => args.iter().skip(1).any(|s| self.test(s)),")]
V["P30-excl"] = [(FI, "!&Filter::Contains(pat.clone()).test(sexp),", "!pat.matches(sexp),")]
V["P30-or"] = [(FI, "Filter::Or(fs) => fs.iter().any(|f| f.test(sexp)),", "Filter::Or(fs) => fs.is_empty() || fs.iter().any(|f| f.test(sexp)),")]
V["P30-canon"] = [(FI, "sexp.eq(&sexp.canon(symbols)),", "symbols.len() < 2 || sexp.eq(&sexp.canon(symbols)),")]
V["P31-var"] = [(PA, "                    if sexp.eq(x) {", "                    if sexp.eq(x) || matches!(x, Sexp::List(_)) {")]
V["P31-len"] = [(PA, "if pats.len() == args.len() {", "if pats.len() <= args.len() {")]
V["P31-subst"] = [(PA, "pat.matches_with(sexp, subst)", "pat.matches_with(sexp, subst.clone()).map(|_| subst)")]
V["P31-wild"] = [(PA, 'if s == "*" => Self::Wild', 'if s.starts_with(\'*\') => Self::Wild')]
V["P31-varq"] = [(PA, "if s.starts_with('?') => Self::Var(s)", "if s.starts_with('?') && s.len() > 1 => Self::Var(s)")]
V["P31-lit"] = [(PA, "                    if plit == lit {", "                    if plit.eq_ignore_ascii_case(lit) {")]
V["P31-wild-list"] = [(PA, "                // Wild matches anything\n                Some(subst)", "                // Wild matches anything\n                match sexp {\n                    Sexp::List(l) if l.is_empty() => None,\n                    _ => Some(subst),\n                }")]
V["P32-same"] = [(SX, "            Sexp::Atom(s) if s == name => pegs.to_vec(),", "            Sexp::Atom(s) if s == name && !pegs.is_empty() => pegs.to_vec(),")]
V["P32-lockstep"] = [(SX, '''            Sexp::List(sexps) => sexps
                .iter()
                .map(|x| x.plug(name, pegs))
                .multi_cartesian_product()
                .map(Sexp::List)
                .collect(),''', '''            Sexp::List(sexps) => sexps
                .iter()
                .map(|x| x.plug(name, pegs))
                .multi_cartesian_product()
                .dedup()
                .map(Sexp::List)
                .collect(),''')]
V["P32-prefix"] = [(SX, "            Sexp::Atom(s) if s == name => pegs.to_vec(),", "            Sexp::Atom(s) if s.starts_with(name) => pegs.to_vec(),")]
V["P32-rev"] = [(WK, "                    res.extend(sexp.plug(name, &pegs));", "                    res.extend(sexp.plug(name, &pegs).into_iter().filter(|s| s != &sexp));")]
V["P33-depth"] = [(SX, ".max().unwrap_or(0) + 1,", ".max().unwrap_or(1) + 1,")]
V["P33-lists"] = [(SX, "Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,", "Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + s.len().min(1),")]
V["P33-atoms"] = [(SX, "Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),", "Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>().max(1),")]
V["P34-idx"] = [(SX, "                    idx += 1;\n", "                    idx = subst.len();\n")]
V["P34-contains"] = [(SX, "if symbols.contains(x) && !subst.contains_key(x) {", "if symbols.contains(x) {")]
V["P34-fold"] = [(SX, "Sexp::List(exps) => exps.iter().fold((subst, idx), |(acc, idx), item| {", "Sexp::List(exps) => exps.iter().rev().fold((subst, idx), |(acc, idx), item| {")]
V["P34-apply"] = [(SX, "if let Some(v) = subst.get(s) {\n                    Sexp::Atom(v.into())", "if let Some(v) = subst.get(s) {\n                    Sexp::Atom(subst.get(v).unwrap_or(v).into())")]
V["P34-subst"] = [(SX, "subst.insert(x.into(), symbols[idx].clone());", "subst.insert(x.into(), symbols[subst.len() % symbols.len()].clone());\n                    subst.remove(&symbols[idx]);")]
V["P35-empty"] = [(SX, "symbolic_expressions::Sexp::Empty => Self::List(vec![]),", "symbolic_expressions::Sexp::Empty => Self::Atom(String::new()),")]
V["P35-print"] = [(SX, '                    write!(f, "{} ", x).expect("not written");', '                    write!(f, "{}", x).expect("not written");')]
V["P35-print-empty"] = [(SX, '                write!(f, "(").expect("not written");', '                if l.is_empty() {\n                    return Ok(());\n                }\n                write!(f, "(").expect("not written");')]
V["P35-file-skip"] = [(WK, "            sexps.push(line.unwrap().parse().unwrap());", "            let line = line.unwrap();\n            if line.starts_with('#') {\n                continue;\n            }\n            sexps.push(line.parse().unwrap());")]
V["P35-to-file"] = [(WK, '            writeln!(file, "{}", name).expect("Unable to write");', '            let _ = writeln!(file, "{}", name);')]
V["P36-vars-once"] = [(WK, "                    if !vars.contains(&v) {\n                        vars.push(v);", "                    if !vars.iter().any(|w| w.starts_with(&v)) {\n                        vars.push(v);")]
V["P36-root-only"] = [(WK, "            for node in expr.as_ref() {", "            for node in expr.as_ref().iter().take(64) {")]
V["P36-init-late"] = [(WK, '''        L::initialize_vars(&mut egraph, &vars);

        for sexp in sexps.iter() {
            egraph.add_expr(&sexp.to_string().parse::<RecExpr<L>>().unwrap());
        }
''', '''        for sexp in sexps.iter() {
            egraph.add_expr(&sexp.to_string().parse::<RecExpr<L>>().unwrap());
        }
        L::initialize_vars(&mut egraph, &vars);
''')]
V["P36-sort"] = [(WK, "        L::initialize_vars(&mut egraph, &vars);", "        vars.sort();\n        L::initialize_vars(&mut egraph, &vars);")]
V["P36-skip-atoms"] = [(WK, '''        for sexp in sexps.iter() {
            egraph.add_expr(&sexp.to_string().parse::<RecExpr<L>>().unwrap());
        }
        egraph''', '''        for sexp in sexps.iter().filter(|s| vars.is_empty() || !vars.contains(&s.to_string()) && s.measure(Metric::Depth) < 50) {
            egraph.add_expr(&sexp.to_string().parse::<RecExpr<L>>().unwrap());
        }
        egraph''')]
# ---- P37..P40
V["P37-union"] = [(RS, "        map.extend(other.0.clone());\n", "        for (k, v) in &other.0 {\n            if !map.contains_key(k) && v.lhs.ast != v.rhs.ast {\n                map.insert(k.clone(), v.clone());\n            }\n        }\n")]
V["P37-remove"] = [(RS, "        for (name, _) in other.0 {\n            self.0.remove(&name);\n        }", "        let n = self.0.len();\n        for (name, _) in other.0.into_iter().take(n) {\n            self.0.remove(&name);\n        }")]
V["P37-contains"] = [(RS, "self.0.contains_key(&rule.name)", "self.0.get(&rule.name).map_or(false, |r| r.rewrite.name == rule.rewrite.name && r.lhs.ast.as_ref().len() == rule.rhs.ast.as_ref().len())")]
V["P37-extend"] = [(RS, "self.0.extend(other.0)\n", "self.0.extend(other.0.into_iter().filter(|(k, _)| k.len() < 40))\n")]
V["P37-new-back"] = [(RS, '''            if let Ok((forwards, backwards)) = Rule::from_string(v.as_ref()) {
                map.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {
                    map.insert(backwards.name.clone(), backwards);
                }
            }
        }
        Ruleset(map)''', '''            if let Ok((forwards, backwards)) = Rule::from_string(v.as_ref()) {
                let name = forwards.name.clone();
                map.insert(name.clone(), forwards);
                if let Some(backwards) = backwards {
                    map.entry(name).or_insert(backwards);
                }
            }
        }
        Ruleset(map)''')]
V["P37-addall"] = [(RS, "        for rule in rules {\n            self.add(rule.clone());\n        }", "        for rule in rules {\n            if self.is_empty() || !self.contains(rule) {\n                self.0.insert(rule.lhs.to_string().into(), rule.clone());\n            }\n        }")]
V["P38-swap"] = [(RS, "        (yes, no)\n    }", "        (no, yes)\n    }")]
V["P38-find-any"] = [(RS, "yes.add_all(yeses);\n        no.add_all(nos);", "yes.add_all(yeses);\n        no.add_all(nos.into_iter().filter(|r| !yes.contains(&Rule::new(&r.rhs, &r.lhs).unwrap_or_else(|| (*r).clone()))).collect());")]
V["P39-display"] = [(RS, '        for (name, _) in &self.0 {\n            writeln!(file, "{}", name).expect("Unable to write");\n        }', '        let mut names: Vec<_> = self.0.keys().collect();\n        names.sort();\n        names.dedup_by(|a, b| a.trim() == b.trim());\n        for name in names {\n            writeln!(file, "{}", name).expect("Unable to write");\n        }')]
V["P39-bidir-drop"] = [(RS, '''            if let Ok((forwards, backwards)) = Rule::from_string(&line) {
                all_rules.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {''', '''            if let Ok((forwards, backwards)) = Rule::from_string(&line) {
                let known = all_rules.insert(forwards.name.clone(), forwards).is_some();
                if let Some(backwards) = backwards.filter(|_| !known) {''')]
V["P39-append"] = [(RS, "let mut file = std::fs::File::create(filename)\n", "let mut file = std::fs::OpenOptions::new().append(true).create(true).open(filename)\n")]
V["P39-ignore-err"] = [(RS, '        for (name, _) in &self.0 {\n            writeln!(file, "{}", name).expect("Unable to write");\n        }', '        for (name, _) in &self.0 {\n            writeln!(file, "{}", name).ok();\n        }')]
V["P39-flatten"] = [(RS, "            let line = line.unwrap();\n            if let Ok", "            let Ok(line) = line else { break };\n            if let Ok")]
V["P40-eq-len"] = [(RS, "        if self.0.len() != other.0.len() {\n            return false;\n        }\n", "        if self.0.len() > other.0.len() {\n            return false;\n        }\n")]
V["P40-bidir"] = [(RS, "unidir + (bidir / 2)", "unidir + bidir")]
V["P40-bidir2"] = [(RS, "            if reverse.is_some() && self.contains(&reverse.unwrap()) {\n                bidir += 1;", "            if reverse.is_some() || self.contains(rule) && reverse.is_some() {\n                bidir += 1;")]
V["P40-print"] = [(RS, "if !strs.contains(&reverse_name) {", "if strs.contains(&reverse_name) {")]
# ---- P41..P48
V["P41-from"] = [(BVF, "    fn from(v: Inner) -> Self {\n        Self::new(v)", "    fn from(v: Inner) -> Self {\n        Self(v)")]
V["P41-not"] = [(BVF, "Self::new(self.0.not())", "Self(self.0.not() & Self::MAX.0 | !self.0 & Self::MIN.0 << 1)")]
V["P41-deser"] = [(BVF, "Inner::deserialize(deserializer).map(Self::new)", "Inner::deserialize(deserializer).map(Self)")]
V["P41-mask"] = [(BVF, "pub const ALL_ONES: Self = Self((!(0)) >> (INNER_N - N));", "pub const ALL_ONES: Self = Self((1 << (N - 1)) | ((1 << (N - 1)) - 2) | (N & 1) | 1 << (N / 100));")]
V["P42-shl"] = [(BVF, '''        if rhs.0 >= N {
            Self::ZERO
        } else {
            Self::new(self.0 << rhs.0)''', '''        if rhs.0 > N {
            Self::ZERO
        } else {
            Self::new(self.0.wrapping_shl(rhs.0 as u32))''')]
V["P42-shr"] = [(BVF, '''        if rhs.0 >= N {
            Self::ZERO
        } else {
            Self::new(self.0 >> rhs.0)''', '''        if rhs.0 >= N {
            Self::ZERO
        } else {
            Self::new(self.0.rotate_right(rhs.0 as u32))''')]
V["P42-neg"] = [(BVF, "Self::new(self.0.wrapping_neg())", "Self::new((!self.0).saturating_add(1))")]
V["P42-sub"] = [(BVF, "Self::new(self.0.wrapping_sub(rhs.0))", "Self::new(self.0.saturating_sub(rhs.0) | rhs.0.saturating_sub(self.0).wrapping_neg() & Self::MAX.0)")]
V["P42-mul"] = [(BVF, "Self::new(self.0.wrapping_mul(rhs.0))", "Self::new(self.0.saturating_mul(rhs.0))")]
V["P43-radix"] = [(BVF, "Inner::from_str_radix(stripped, 2)", "Inner::from_str_radix(stripped, 16)")]
V["P43-trunc"] = [(BVF, "s.parse::<Inner>().map(Self::new)", "s.parse::<u64>().map(|v| Self::new(v))")]
V["P43-hex"] = [(BVF, "        s.parse::<Inner>().map(Self::new)\n", "        s.trim_start_matches('-').parse::<Inner>().map(Self::new)\n")]
V["P44-sar"] = [(BVF, ".bvlshr(&buf", ".bvashr(&buf")]
V["P44-xor"] = [(BVF, "Some(*a ^ *b)", "Some(*a | *b)")]
V["P44-sub-order"] = [(BVF, "Bv::Sub([a, b]) => map!(get_cvec, a, b => Some(a.wrapping_sub(*b))),", "Bv::Sub([a, b]) => map!(get_cvec, b, a => Some(b.wrapping_sub(*a))),\n"), (BVF, "bvsub(&buf[usize::from(*b)])", "bvadd(&buf[usize::from(*b)].bvneg())")]
V["P44-sub-swap"] = [(BVF, "buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])", "buf[usize::from(*b)].bvsub(&buf[usize::from(*a)])")]
V["P44-lit"] = [(BVF, "z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64)", "z3::ast::BV::from_u64(&ctx, (c.0 >> 32) as u64, 64)")]
V["P44-not-neg"] = [(BVF, "Bv::Not(a) => buf.push(buf[usize::from(*a)].bvnot()),", "Bv::Not(a) => buf.push(buf[usize::from(*a)].bvneg()),")]
V["P45-unknown"] = [(BVF, "SatResult::Unknown => ValidationResult::Unknown", "SatResult::Unknown => ValidationResult::Valid")]
V["P45-noneg"] = [(BVF, "solver.assert(&lexpr._eq(&rexpr).not());", "solver.assert(&lexpr._eq(&rexpr));")]
V["P45-swap"] = [(BVF, "SatResult::Sat => ValidationResult::Invalid,\n                    SatResult::Unsat => ValidationResult::Valid,", "SatResult::Sat => ValidationResult::Unknown,\n                    SatResult::Unsat => ValidationResult::Valid,")]
V["P46-map2"] = [(UT, '''                (Some($a), Some($b)) => $body,
                _ => None,
            })
            .collect::<Vec<_>>()
    };
    ($get:ident, $a:ident, $b:ident, $c:ident''', '''                (Some($a), Some($b)) => $body,
                (Some($a), None) => Some($a.clone()),
                _ => None,
            })
            .collect::<Vec<_>>()
    };
    ($get:ident, $a:ident, $b:ident, $c:ident''')]
V["P47-consts"] = [(BVF, "consts.push(Some(BV::MAX.wrapping_sub(i)));", "consts.push(Some(BV::MAX.wrapping_add(i)));")]
V["P47-cveclen"] = [(BVF, "egraph.analysis.cvec_len = cvecs.first().map_or(1, |cvec| cvec.len());", "egraph.analysis.cvec_len = consts.len();")]
V["P47-index"] = [(BVF, "egraph[id].data.cvec = cvecs[i].clone()", "egraph[id].data.cvec = cvecs[vars.len() - 1 - i / 2].clone()")]
V["P48-pow"] = [(UT, "for _ in 0..num_consts.pow(i as u32) {", "for _ in 0..num_consts * i.max(1) {")]
V["P48-rows"] = [(UT, "let num_rows = num_consts.pow(n as u32);", "let num_rows = num_consts.pow(n.min(3) as u32);")]
# ---- P49 P50 P51
V["P49-truncate"] = [(LOG, "        .create(true)\n", "        .create(true)\n        .truncate(true)\n")]
V["P49-parse-default"] = [(LOG, 'serde_json::from_str(&s).expect("Unable to parse json")', "serde_json::from_str(&s).unwrap_or_default()")]
V["P49-insert"] = [(LOG, "    contents.push(json);", "    contents.retain(|c| c != &json);\n    contents.push(json);")]
V["P49-ignore"] = [(LOG, '''    std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap())
        .expect("Unable to write to json file");''', '''    let _ = std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap());''')]
V["P50-labels"] = [(LOG, '"lhs_rhs": get_derivability(baseline, ruleset, DeriveType::LhsAndRhs)', '"lhs_rhs": get_derivability(baseline, ruleset, DeriveType::Lhs)')]
V["P50-skip"] = [(LOG, "skip_derive.contains(&(baseline_name, spec_name))", "skip_derive.contains(&(spec_name, baseline_name))")]
V["P50-can"] = [(LOG, '''        "derive_type": derive_type,
        "can": can.to_str_vec(),
        "cannot": cannot.to_str_vec(),''', '''        "derive_type": derive_type,
        "can": cannot.to_str_vec(),
        "cannot": can.to_str_vec(),''')]
V["P50-bv-rules"] = [(LOG, '"rules": sound_bv4.to_str_vec(),', '"rules": ported_bv4_rules.to_str_vec(),')]
V["P50-bv-lhs"] = [(LOG, '            "lhs": lhs,\n            "lhs_rhs": lhsrhs', '            "lhs": lhsrhs,\n            "lhs_rhs": lhs')]
V["P50-ff"] = [(LOG, '"phase3": format!("{}", phase3),', '"phase3": format!("{}", phase2),')]
V["P50-phase"] = [(LIB, 'Scheduler::Saturating(_) => "sat",', 'Scheduler::Saturating(_) => "eqsat",')]
V["P51-random-hash"] = [(LIB, "pub type HashMap<K, V> = rustc_hash::FxHashMap<K, V>;", "pub type HashMap<K, V> = std::collections::HashMap<K, V>;")]
V["P51-time"] = [(RS, "        while !self.is_empty() {\n            let selected", "        let t = std::time::Instant::now();\n        while !self.is_empty() && t.elapsed().as_secs() < 3600 {\n            let selected")]
V["P51-env"] = [(REC, "    let t = Instant::now();\n\n    let egraph = workload", "    let t = Instant::now();\n    let fast_match = fast_match || std::env::var(\"RULER_FAST\").is_ok();\n\n    let egraph = workload")]
