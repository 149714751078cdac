"""Behaviour-preserving rewrites: every check must stay quiet on each."""
RS, RULE, SCHED, WK, SX, FI, PA = ("src/enumo/%s.rs" % x for x in (
    "ruleset", "rule", "scheduler", "workload", "sexp", "filter", "pattern"))
LIB, LANG, BVF, REC, LOG, UT = ("src/%s.rs" % x for x in ("lib", "language", "bv", "recipe_utils", "logger", "util"))
V = {}

V["eq-iter-all"] = [(RS, '''        for ((name1, _), (name2, _)) in self.0.iter().zip(other.0.iter()) {
            if name1 != name2 {
                return false;
            }
        }
        true
    }''', '''        self.0.iter().zip(other.0.iter()).all(|((n1, _), (n2, _))| n1 == n2)
    }''')]
V["eq-keys"] = [(RS, '''        if self.0.len() != other.0.len() {
            return false;
        }
        for ((name1, _), (name2, _)) in self.0.iter().zip(other.0.iter()) {
            if name1 != name2 {
                return false;
            }
        }
        true
    }''', '''        self.0.len() == other.0.len() && self.0.keys().zip(other.0.keys()).all(|(a, b)| a == b)
    }''')]
V["new-helper"] = [(RS, '''        let mut map = IndexMap::default();
        for v in vals {
            if let Ok((forwards, backwards)) = Rule::from_string(v.as_ref()) {
                map.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {
                    map.insert(backwards.name.clone(), backwards);
                }
            }
        }
        Ruleset(map)
    }
''', '''        let mut map = IndexMap::default();
        for v in vals {
            Self::insert_parsed(&mut map, v.as_ref());
        }
        Ruleset(map)
    }

    fn insert_parsed(map: &mut IndexMap<Arc<str>, Rule<L>>, line: &str) {
        match Rule::from_string(line) {
            Ok((forwards, backwards)) => {
                map.insert(forwards.name.clone(), forwards);
                if let Some(b) = backwards {
                    map.insert(b.name.clone(), b);
                }
            }
            Err(_) => {}
        }
    }
'''), (RS, '''            let line = line.unwrap();
            if let Ok((forwards, backwards)) = Rule::from_string(&line) {
                all_rules.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {
                    all_rules.insert(backwards.name.clone(), backwards);
                }
            }
''', '''            Self::insert_parsed(&mut all_rules, &line.unwrap());
''')]
V["new-via-add"] = [(RS, '''        let mut map = IndexMap::default();
        for v in vals {
            if let Ok((forwards, backwards)) = Rule::from_string(v.as_ref()) {
                map.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {
                    map.insert(backwards.name.clone(), backwards);
                }
            }
        }
        Ruleset(map)
''', '''        let mut out = Self::default();
        for v in vals {
            let (forwards, backwards) = match Rule::from_string(v.as_ref()) {
                Ok(p) => p,
                Err(_) => continue,
            };
            out.add(forwards);
            if let Some(b) = backwards {
                out.add(b);
            }
        }
        out
''')]
V["union-loop"] = [(RS, '''        let mut map = self.0.clone();
        map.extend(other.0.clone());
        Ruleset(map)''', '''        let mut res = self.clone();
        for rule in other.iter() {
            res.add(rule.clone());
        }
        res''')]
V["union-extend"] = [(RS, '''        let mut map = self.0.clone();
        map.extend(other.0.clone());
        Ruleset(map)''', '''        let mut res = self.clone();
        res.extend(other.clone());
        res''')]
V["tostr-keys"] = [(RS, '''        match self {
            Ruleset(m) => m.iter().map(|(name, _val)| name.to_string()).collect(),
        }''', '''        self.0.keys().map(|name| name.to_string()).collect()''')]
V["tostr-loop"] = [(RS, '''        match self {
            Ruleset(m) => m.iter().map(|(name, _val)| name.to_string()).collect(),
        }''', '''        let mut names = Vec::with_capacity(self.len());
        for (name, _) in &self.0 {
            names.push(name.to_string());
        }
        names''')]
V["isempty-len"] = [(RS, '''        self.0.is_empty()
    }''', '''        self.len() == 0
    }''')]
V["bidir-filter"] = [(RS, '''        let mut bidir = 0;
        let mut unidir = 0;
        for (_, rule) in &self.0 {
            let reverse = Rule::new(&rule.rhs, &rule.lhs);
            if reverse.is_some() && self.contains(&reverse.unwrap()) {
                bidir += 1;
            } else {
                unidir += 1;
            }
        }
        unidir + (bidir / 2)''', '''        let bidir = self
            .iter()
            .filter(|rule| self.has_reverse(rule))
            .count();
        let unidir = self.len() - bidir;
        unidir + bidir / 2'''), (RS, '''    pub fn contains(&self, rule: &Rule<L>) -> bool {''', '''    fn has_reverse(&self, rule: &Rule<L>) -> bool {
        match Rule::new(&rule.rhs, &rule.lhs) {
            Some(rev) => self.contains(&rev),
            None => false,
        }
    }

    pub fn contains(&self, rule: &Rule<L>) -> bool {''')]
V["bidir-iflet"] = [(RS, '''            let reverse = Rule::new(&rule.rhs, &rule.lhs);
            if reverse.is_some() && self.contains(&reverse.unwrap()) {
                bidir += 1;
            } else {
                unidir += 1;
            }''', '''            match Rule::new(&rule.rhs, &rule.lhs) {
                Some(reverse) if self.contains(&reverse) => bidir += 1,
                _ => unidir += 1,
            }''')]
V["contains-get"] = [(RS, '''        self.0.contains_key(&rule.name)''', '''        self.0.get(&rule.name).is_some()''')]
V["add-name"] = [(RS, '''        self.0.insert(rule.name.clone(), rule);
    }

    /// Given''', '''        let name = rule.name.clone();
        let _ = self.0.insert(name, rule);
    }

    /// Given''')]
V["addrec-loop"] = [(RS, '''        let forward = Rule::new(&l_pat, &r_pat);
        let backward = Rule::new(&r_pat, &l_pat);
        if let Some(forward) = forward {
            self.add(forward);
        }
        if let Some(backward) = backward {
            self.add(backward);
        }''', '''        for rule in [Rule::new(&l_pat, &r_pat), Rule::new(&r_pat, &l_pat)] {
            if let Some(rule) = rule {
                self.add(rule);
            }
        }''')]
V["addrec-flatten"] = [(RS, '''        let forward = Rule::new(&l_pat, &r_pat);
        let backward = Rule::new(&r_pat, &l_pat);
        if let Some(forward) = forward {
            self.add(forward);
        }
        if let Some(backward) = backward {
            self.add(backward);
        }''', '''        if let Some(forward) = Rule::new(&l_pat, &r_pat) {
            self.add(forward);
        }
        if let Some(backward) = Rule::new(&r_pat, &l_pat) {
            self.add(backward);
        }''')]
V["addrec-map"] = [(RS, '''        let map = &mut HashMap::default();
        let l_pat = L::generalize(e1, map);
        let r_pat = L::generalize(e2, map);''', '''        let mut map = HashMap::default();
        let (l_pat, r_pat) = (L::generalize(e1, &mut map), L::generalize(e2, &mut map));''')]
V["addall-iter"] = [(RS, '''        for rule in rules {
            self.add(rule.clone());
        }''', '''        rules.into_iter().cloned().for_each(|r| self.add(r));''')]
V["addall-ext"] = [(RS, '''        for rule in rules {
            self.add(rule.clone());
        }''', '''        self.0.extend(rules.into_iter().map(|r| (r.name.clone(), r.clone())));''')]
V["remove-keys"] = [(RS, '''        for (name, _) in other.0 {
            self.0.remove(&name);
        }''', '''        for name in other.0.keys() {
            self.0.remove(name);
        }''')]
V["remove-rule"] = [(RS, '''        for (name, _) in other.0 {
            self.0.remove(&name);
        }''', '''        other.iter().for_each(|rule| {
            self.0.remove(&rule.name);
        });''')]
V["extend-loop"] = [(RS, '''        self.0.extend(other.0)
    }''', '''        for (name, rule) in other {
            self.0.insert(name, rule);
        }
    }''')]
V["partition-direct"] = [(RS, '''        let (yeses, nos): (Vec<_>, Vec<_>) = rules.into_par_iter().partition(|rule| f(rule));
        let mut yes = Ruleset::default();
        let mut no = Ruleset::default();
        yes.add_all(yeses);
        no.add_all(nos);
        (yes, no)''', '''        let (accepted, rejected): (Vec<&Rule<L>>, Vec<&Rule<L>>) =
            rules.into_par_iter().partition(|r| f(r));
        let collect = |rs: Vec<&Rule<L>>| {
            let mut out = Ruleset::default();
            out.add_all(rs);
            out
        };
        (collect(accepted), collect(rejected))''')]
V["partition-seq"] = [(RS, '''        let rules: Vec<&Rule<L>> = self.0.values().collect();
        let (yeses, nos): (Vec<_>, Vec<_>) = rules.into_par_iter().partition(|rule| f(rule));
        let mut yes = Ruleset::default();
        let mut no = Ruleset::default();
        yes.add_all(yeses);
        no.add_all(nos);
        (yes, no)''', '''        let rules: Vec<&Rule<L>> = self.0.values().collect();
        let verdicts: Vec<bool> = rules.par_iter().map(|rule| f(rule)).collect();
        let mut yes = Ruleset::default();
        let mut no = Ruleset::default();
        for (rule, ok) in rules.into_iter().zip(verdicts) {
            if ok {
                yes.add(rule.clone());
            } else {
                no.add(rule.clone());
            }
        }
        (yes, no)'''), (RS, "rayon::prelude::{IntoParallelIterator, ParallelIterator}", "rayon::prelude::{IntoParallelRefIterator, ParallelIterator}")]
V["tofile-names"] = [(RS, '''        for (name, _) in &self.0 {
            writeln!(file, "{}", name).expect("Unable to write");
        }''', '''        for rule_name in self.0.keys() {
            writeln!(file, "{rule_name}").expect("Unable to write");
        }''')]
V["tofile-match"] = [(RS, '''        let mut file = std::fs::File::create(filename)
            .unwrap_or_else(|_| panic!("Failed to open '{}'", filename));
        for (name, _) in &self.0 {''', '''        let mut file = match std::fs::File::create(filename) {
            Ok(f) => f,
            Err(_) => panic!("Failed to open '{}'", filename),
        };
        for (name, _) in self.0.iter() {''')]
V["fromfile-new"] = [(RS, '''        let mut all_rules = IndexMap::default();
        for line in std::io::BufRead::lines(reader) {
            let line = line.unwrap();
            if let Ok((forwards, backwards)) = Rule::from_string(&line) {
                all_rules.insert(forwards.name.clone(), forwards);
                if let Some(backwards) = backwards {
                    all_rules.insert(backwards.name.clone(), backwards);
                }
            }
        }
        Self(all_rules)''', '''        let lines = std::io::BufRead::lines(reader).map(|line| line.unwrap());
        Self::new(lines)''')]
V["pretty-split"] = [(RS, '''            let reverse = Rule::new(&rule.rhs, &rule.lhs);
            if reverse.is_some() && self.contains(&reverse.unwrap()) {
                let reverse_name = format!("{} <=> {}", rule.rhs, rule.lhs);
                if !strs.contains(&reverse_name) {
                    strs.push(format!("{} <=> {}", rule.lhs, rule.rhs));
                }
            } else {
                strs.push(name.to_string());
            }''', '''            let is_bidirectional = match Rule::new(&rule.rhs, &rule.lhs) {
                Some(reverse) => self.contains(&reverse),
                None => false,
            };
            if !is_bidirectional {
                strs.push(name.to_string());
                continue;
            }
            let reverse_name = format!("{} <=> {}", rule.rhs, rule.lhs);
            if !strs.contains(&reverse_name) {
                strs.push(format!("{} <=> {}", rule.lhs, rule.rhs));
            }''')]
V["extract-helper"] = [(RS, '''        let mut candidates = Ruleset::default();
        let ids: Vec<Id> = eg1.classes().map(|c| c.id).collect();
        let mut unions = HashMap::default();
        for id in ids {
            let new_id = eg2.find(id);
            unions.entry(new_id).or_insert_with(Vec::new).push(id);
        }
''', '''        let mut candidates = Ruleset::default();
        let mut unions: HashMap<Id, Vec<Id>> = HashMap::default();
        for class in eg1.classes() {
            unions.entry(eg2.find(class.id)).or_default().push(class.id);
        }
'''), (RS, '''            for id1 in ids.clone() {
                for id2 in ids.clone() {
                    let (c1, e1) = extract.find_best(id1);
                    let (c2, e2) = extract.find_best(id2);
                    if c1 == usize::MAX || c2 == usize::MAX {
                        continue;
                    }
                    if e1 != e2 {
                        candidates.add_from_recexprs(&e1, &e2);
                    }
                }
            }''', '''            for &id1 in ids {
                let (c1, e1) = extract.find_best(id1);
                for &id2 in ids {
                    let (c2, e2) = extract.find_best(id2);
                    if c1 != usize::MAX && c2 != usize::MAX && e1 != e2 {
                        candidates.add_from_recexprs(&e1, &e2);
                    }
                }
            }''')]
V["extract-pre"] = [(RS, '''            for id1 in ids.clone() {
                for id2 in ids.clone() {
                    let (c1, e1) = extract.find_best(id1);
                    let (c2, e2) = extract.find_best(id2);
                    if c1 == usize::MAX || c2 == usize::MAX {
                        continue;
                    }
                    if e1 != e2 {
                        candidates.add_from_recexprs(&e1, &e2);
                    }
                }
            }''', '''            let best: Vec<(usize, RecExpr<L>)> =
                ids.iter().map(|&id| extract.find_best(id)).collect();
            for (c1, e1) in best.iter() {
                for (c2, e2) in best.iter() {
                    let expressible = *c1 != usize::MAX && *c2 != usize::MAX;
                    if expressible && e1 != e2 {
                        candidates.add_from_recexprs(e1, e2);
                    }
                }
            }''')]
V["cvec-compare-fn"] = [(RS, '''        let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
            let mut witness = false;
            for tup in cvec1.iter().zip(cvec2) {
                match tup {
                    (Some(a), Some(b)) if a != b => return false,
                    (Some(_), Some(_)) => witness = true,
                    _ => (),
                }
            }
            witness
        };
''', ''), (RS, '''                    if compare(&class1.data.cvec, &class2.data.cvec) {''', '''                    if Self::cvecs_agree(&class1.data.cvec, &class2.data.cvec) {'''),
 (RS, '''    /// Find candidates by CVec matching
''', '''    fn cvecs_agree(cvec1: &CVec<L>, cvec2: &CVec<L>) -> bool {
        let mut witness = false;
        for (x, y) in cvec1.iter().zip(cvec2.iter()) {
            if let (Some(a), Some(b)) = (x, y) {
                if a != b {
                    return false;
                }
                witness = true;
            }
        }
        witness
    }

    /// Find candidates by CVec matching
''')]
V["cvec-compare-two"] = [(RS, '''            let mut witness = false;
            for tup in cvec1.iter().zip(cvec2) {
                match tup {
                    (Some(a), Some(b)) if a != b => return false,
                    (Some(_), Some(_)) => witness = true,
                    _ => (),
                }
            }
            witness
        };''', '''            let both = || {
                cvec1
                    .iter()
                    .zip(cvec2)
                    .filter_map(|(a, b)| a.as_ref().zip(b.as_ref()))
            };
            both().all(|(a, b)| a == b) && both().next().is_some()
        };''')]
V["cvec-compare-any"] = [(RS, '''            let mut witness = false;
            for tup in cvec1.iter().zip(cvec2) {
                match tup {
                    (Some(a), Some(b)) if a != b => return false,
                    (Some(_), Some(_)) => witness = true,
                    _ => (),
                }
            }
            witness
        };''', '''            let conflict = cvec1.iter().zip(cvec2).any(|(a, b)| match (a, b) {
                (Some(a), Some(b)) => a != b,
                _ => false,
            });
            let overlap = cvec1
                .iter()
                .zip(cvec2)
                .any(|(a, b)| a.is_some() && b.is_some());
            !conflict && overlap
        };''')]
V["cvec-defined"] = [(RS, '''            let mut all_classes = classes.clone();
            if value.is_some() {
                all_classes.extend(first_none.clone());
            }
''', '''            let all_classes: Vec<Id> = if value.is_some() {
                classes.iter().chain(first_none.iter()).copied().collect()
            } else {
                classes
            };
''')]
V["cvec-idx"] = [(RS, '''            for i in 0..all_classes.len() {
                for j in i + 1..all_classes.len() {
                    let class1 = &egraph[all_classes[i]];
                    let class2 = &egraph[all_classes[j]];
''', '''            for (i, &id1) in all_classes.iter().enumerate() {
                for &id2 in &all_classes[i + 1..] {
                    let class1 = &egraph[id1];
                    let class2 = &egraph[id2];
''')]
V["fast-idx"] = [(RS, '''            for (idx, e1) in exprs.iter().enumerate() {
                for e2 in exprs[(idx + 1)..].iter() {
                    candidates.add_from_recexprs(e1, e2);
                }
            }''', '''            for i in 0..exprs.len() {
                for j in (i + 1)..exprs.len() {
                    candidates.add_from_recexprs(&exprs[i], &exprs[j]);
                }
            }''')]
V["fast-skip"] = [(RS, '''            for (idx, e1) in exprs.iter().enumerate() {
                for e2 in exprs[(idx + 1)..].iter() {
                    candidates.add_from_recexprs(e1, e2);
                }
            }''', '''            for (idx, e1) in exprs.iter().enumerate() {
                for e2 in exprs.iter().skip(idx + 1) {
                    candidates.add_from_recexprs(e1, e2);
                }
            }''')]
V["fast-filter"] = [(RS, '''        for class in egraph.classes() {
            if class.data.is_defined() {
                by_cvec.entry(&class.data.cvec).or_default().push(class.id);
            }
        }''', '''        for class in egraph.classes().filter(|c| c.data.is_defined()) {
            by_cvec
                .entry(&class.data.cvec)
                .or_insert_with(Vec::new)
                .push(class.id);
        }''')]
V["select-direct"] = [(RS, '''        let mut chosen = Self::default();
        self.0
            .sort_by''', '''        self.0
            .sort_by'''), (RS, '''        chosen.extend(selected);

        // 3. return chosen candidates
        chosen
    }''', '''        // 3. return chosen candidates
        selected
    }''')]
V["select-whilelet"] = [(RS, '''            let popped = self.0.pop();
            if let Some((_, rule)) = popped {
                if rule.is_valid() {
                    selected.add(rule.clone());
                } else {
                    invalid.add(rule.clone());
                }

                // If reverse direction is also in candidates, add it at the same time
                let reverse = Rule::new(&rule.rhs, &rule.lhs);
                if let Some(reverse) = reverse {
                    if self.contains(&reverse) {
                        if reverse.is_valid() {
                            selected.add(reverse);
                        } else {
                            invalid.add(reverse);
                        }
                    }
                }
            } else {
                break;
            }''', '''            let rule = match self.0.pop() {
                Some((_, rule)) => rule,
                None => break,
            };
            Self::judge(rule.clone(), &mut selected, invalid);

            // If reverse direction is also in candidates, add it at the same time
            match Rule::new(&rule.rhs, &rule.lhs) {
                Some(reverse) if self.contains(&reverse) => {
                    Self::judge(reverse, &mut selected, invalid)
                }
                _ => {}
            }'''), (RS, '''    fn select(&mut self''', '''    fn judge(rule: Rule<L>, valid: &mut Self, invalid: &mut Self) {
        if rule.is_valid() {
            valid.add(rule);
        } else {
            invalid.add(rule);
        }
    }

    fn select(&mut self''')]
V["select-order"] = [(RS, '''                if rule.is_valid() {
                    selected.add(rule.clone());
                } else {
                    invalid.add(rule.clone());
                }

                // If reverse direction is also in candidates, add it at the same time
                let reverse = Rule::new(&rule.rhs, &rule.lhs);
''', '''                let reverse = Rule::new(&rule.rhs, &rule.lhs);
                let target = if rule.is_valid() { &mut selected } else { &mut *invalid };
                target.add(rule);
''')]
V["shrink-retain"] = [(RS, '''        self.0 = Default::default();
        for (l_id, r_id, rule) in initial {
            if egraph.find(l_id) == egraph.find(r_id) {
                // candidate has merged (derivable from other rewrites)
                continue;
            } else {
                self.add(rule);
            }
        }''', '''        let mut remaining = Self::default();
        for (l_id, r_id, rule) in initial {
            if egraph.find(l_id) != egraph.find(r_id) {
                remaining.add(rule);
            }
        }
        *self = remaining;''')]
V["shrink-collect"] = [(RS, '''        let mut initial = vec![];
        // 2. insert lhs and rhs of all candidates as roots
        for rule in self.0.values() {
            let lhs = egraph.add_expr(&L::instantiate(&rule.lhs));
            let rhs = egraph.add_expr(&L::instantiate(&rule.rhs));
            initial.push((lhs, rhs, rule.clone()));
        }
''', '''        // 2. insert lhs and rhs of all candidates as roots
        let initial: Vec<(Id, Id, Rule<L>)> = self
            .iter()
            .map(|rule| {
                let l = L::instantiate(&rule.lhs);
                let r = L::instantiate(&rule.rhs);
                (egraph.add_expr(&l), egraph.add_expr(&r), rule.clone())
            })
            .collect();
''')]
V["shrink-filter"] = [(RS, '''        self.0 = Default::default();
        for (l_id, r_id, rule) in initial {
            if egraph.find(l_id) == egraph.find(r_id) {
                // candidate has merged (derivable from other rewrites)
                continue;
            } else {
                self.add(rule);
            }
        }''', '''        self.0 = initial
            .into_iter()
            .filter(|(l, r, _)| egraph.find(*l) != egraph.find(*r))
            .map(|(_, _, rule)| (rule.name.clone(), rule))
            .collect();''')]
V["minimize-loop"] = [(RS, '''        let step_size = 1;
        while !self.is_empty() {
            let selected = self.select(step_size, &mut invalid);
            chosen.extend(selected.clone());
            self.shrink(&chosen, scheduler);
        }''', '''        loop {
            if self.is_empty() {
                break;
            }
            let selected = self.select(1, &mut invalid);
            chosen.extend(selected);
            self.shrink(&chosen, scheduler);
        }''')]
V["derive-if"] = [(RS, '''        match derive_type {
            DeriveType::Lhs => {
                egraph.add_expr(lexpr);
            }
            DeriveType::LhsAndRhs => {
                egraph.add_expr(lexpr);
                egraph.add_expr(rexpr);
            }
        }
''', '''        egraph.add_expr(lexpr);
        if let DeriveType::LhsAndRhs = derive_type {
            egraph.add_expr(rexpr);
        }
''')]
V["derive-mapor"] = [(RS, '''        if let Some(r_id) = r_id {
            l_id == r_id
        } else {
            false
        }
    }''', '''        r_id.map_or(false, |r_id| l_id == r_id)
    }''')]
V["derive-eqsome"] = [(RS, '''        let r_id = out_egraph.lookup_expr(rexpr);
        if let Some(r_id) = r_id {
            l_id == r_id
        } else {
            false
        }
    }''', '''        out_egraph.lookup_expr(rexpr) == Some(l_id)
    }''')]
V["derive-match"] = [(RS, '''        let l_id = out_egraph
            .lookup_expr(lexpr)
            .unwrap_or_else(|| panic!("Did not find {}", lexpr));
        let r_id = out_egraph.lookup_expr(rexpr);
        if let Some(r_id) = r_id {
            l_id == r_id
        } else {
            false
        }
    }''', '''        let l_id = match out_egraph.lookup_expr(lexpr) {
            Some(id) => id,
            None => panic!("Did not find {}", lexpr),
        };
        match out_egraph.lookup_expr(rexpr) {
            None => false,
            Some(id) => id == l_id,
        }
    }''')]

# rule.rs
V["fromstr-helper"] = [(RULE, '''            let forwards = Self {
                name: format!("{} ==> {}", l_pat, r_pat).into(),
                lhs: l_pat.clone(),
                rhs: r_pat.clone(),
                rewrite: Rewrite::new(
                    format!("{} ==> {}", l_pat, r_pat),
                    l_pat.clone(),
                    Rhs { rhs: r_pat.clone() },
                )
                .unwrap(),
            };

            if s.contains("<=>") {
                let backwards = Self {
                    name: format!("{} ==> {}", r_pat, l_pat).into(),
                    lhs: r_pat.clone(),
                    rhs: l_pat.clone(),
                    rewrite: Rewrite::new(
                        format!("{} ==> {}", r_pat, l_pat),
                        r_pat,
                        Rhs { rhs: l_pat },
                    )
                    .unwrap(),
                };
                Ok((forwards, Some(backwards)))
            } else {
                Ok((forwards, None))
            }''', '''            let forwards = Self::directed(&l_pat, &r_pat);
            let backwards = if s.contains("<=>") {
                Some(Self::directed(&r_pat, &l_pat))
            } else {
                None
            };
            Ok((forwards, backwards))'''), (RULE, '''impl<L: SynthLanguage> Rule<L> {
    pub fn from_string''', '''impl<L: SynthLanguage> Rule<L> {
    fn directed(from: &Pattern<L>, to: &Pattern<L>) -> Self {
        let name = format!("{} ==> {}", from, to);
        let rewrite = Rewrite::new(name.clone(), from.clone(), Rhs { rhs: to.clone() }).unwrap();
        Self {
            name: name.into(),
            lhs: from.clone(),
            rhs: to.clone(),
            rewrite,
        }
    }

    pub fn from_string''')]
V["fromstr-new"] = [(RULE, '''            let forwards = Self {
                name: format!("{} ==> {}", l_pat, r_pat).into(),
                lhs: l_pat.clone(),
                rhs: r_pat.clone(),
                rewrite: Rewrite::new(
                    format!("{} ==> {}", l_pat, r_pat),
                    l_pat.clone(),
                    Rhs { rhs: r_pat.clone() },
                )
                .unwrap(),
            };

            if s.contains("<=>") {
                let backwards = Self {
                    name: format!("{} ==> {}", r_pat, l_pat).into(),
                    lhs: r_pat.clone(),
                    rhs: l_pat.clone(),
                    rewrite: Rewrite::new(
                        format!("{} ==> {}", r_pat, l_pat),
                        r_pat,
                        Rhs { rhs: l_pat },
                    )
                    .unwrap(),
                };
                Ok((forwards, Some(backwards)))
            } else {
                Ok((forwards, None))
            }''', '''            let forwards = Self::new(&l_pat, &r_pat).unwrap();
            let bidirectional = s.contains("<=>");
            let backwards = bidirectional.then(|| Self::new(&r_pat, &l_pat).unwrap());
            Ok((forwards, backwards))''')]
V["fromstr-early"] = [(RULE, '''        if let Some((l, r)) = s.split_once("=>") {
            let l_pat''', '''        let Some((l, r)) = s.split_once("=>") else {
            return Err(format!("Failed to parse {}", s));
        };
        {
            let l_pat'''), (RULE, '''                Ok((forwards, None))
            }
        } else {
            Err(format!("Failed to parse {}", s))
        }''', '''                Ok((forwards, None))
            }
        }''')]
V["apply-comb"] = [(RULE, '''        let id = apply_pat(self.rhs.ast.as_ref(), egraph, subst);
        if id == matched_id {
            return vec![];
        }

        if !egraph[id].data.is_defined() {
            return vec![];
        }
''', '''        let id = apply_pat(self.rhs.ast.as_ref(), egraph, subst);
        if id == matched_id || !egraph[id].data.is_defined() {
            return vec![];
        }
''')]
V["apply-nested"] = [(RULE, '''        if !egraph[matched_id].data.is_defined() {
            return vec![];
        }

        let id = apply_pat(self.rhs.ast.as_ref(), egraph, subst);
        if id == matched_id {
            return vec![];
        }

        if !egraph[id].data.is_defined() {
            return vec![];
        }

        egraph.union(id, matched_id);
        vec![id]''', '''        let mut changed = vec![];
        if egraph[matched_id].data.is_defined() {
            let id = apply_pat(self.rhs.ast.as_ref(), egraph, subst);
            if id != matched_id && egraph[id].data.is_defined() {
                egraph.union(id, matched_id);
                changed.push(id);
            }
        }
        changed''')]
V["applypat-push"] = [(RULE, '''    let mut ids = vec![0.into(); pat.len()];

    for (i, pat_node) in pat.iter().enumerate() {
        let id = match pat_node {
            ENodeOrVar::Var(w) => subst[*w],
            ENodeOrVar::ENode(e) => {
                let n = e.clone().map_children(|child| ids[usize::from(child)]);
                egraph.add(n)
            }
        };
        ids[i] = id;
    }

    *ids.last().unwrap()''', '''    let mut ids: Vec<Id> = Vec::with_capacity(pat.len());

    for pat_node in pat {
        let id = match pat_node {
            ENodeOrVar::Var(w) => subst[*w],
            ENodeOrVar::ENode(e) => {
                let n = e.clone().map_children(|child| ids[usize::from(child)]);
                egraph.add(n)
            }
        };
        ids.push(id);
    }

    *ids.last().unwrap()''')]
V["applypat-idx"] = [(RULE, '''    for (i, pat_node) in pat.iter().enumerate() {
        let id = match pat_node {
            ENodeOrVar::Var(w) => subst[*w],
            ENodeOrVar::ENode(e) => {
                let n = e.clone().map_children(|child| ids[usize::from(child)]);
                egraph.add(n)
            }
        };
        ids[i] = id;
    }

    *ids.last().unwrap()''', '''    for i in 0..pat.len() {
        ids[i] = match &pat[i] {
            ENodeOrVar::Var(w) => subst[*w],
            ENodeOrVar::ENode(e) => {
                let mut n = e.clone();
                n.update_children(|child| ids[usize::from(child)]);
                egraph.add(n)
            }
        };
    }

    ids[pat.len() - 1]''')]
V["rulenew-match"] = [(RULE, '''        let rewrite = Rewrite::new(name.clone(), l_pat.clone(), rhs).ok();

        rewrite.map(|rw| Rule {
            name: name.into(),
            lhs: l_pat.clone(),
            rhs: r_pat.clone(),
            rewrite: rw,
        })''', '''        match Rewrite::new(name.clone(), l_pat.clone(), rhs) {
            Ok(rewrite) => Some(Rule {
                name: name.into(),
                lhs: l_pat.clone(),
                rhs: r_pat.clone(),
                rewrite,
            }),
            Err(_) => None,
        }''')]
V["rulenew-q"] = [(RULE, '''        let rewrite = Rewrite::new(name.clone(), l_pat.clone(), rhs).ok();

        rewrite.map(|rw| Rule {
            name: name.into(),
            lhs: l_pat.clone(),
            rhs: r_pat.clone(),
            rewrite: rw,
        })''', '''        let rewrite = Rewrite::new(name.clone(), l_pat.clone(), rhs).ok()?;
        Some(Rule {
            name: Arc::from(name),
            lhs: l_pat.clone(),
            rhs: r_pat.clone(),
            rewrite,
        })''')]
V["issat-le"] = [(RULE, '''        initial_size >= final_size''', '''        final_size <= initial_size''')]
V["issat-not"] = [(RULE, '''        initial_size >= final_size''', '''        !(final_size > initial_size)''')]
V["issat-order"] = [(RULE, '''        let l_id = egraph.add_expr(&L::instantiate(&self.lhs));
        let initial_size = egraph.number_of_classes();

        let r_id = egraph.add_expr(&L::instantiate(&self.rhs));
''', '''        let (lhs, rhs) = (L::instantiate(&self.lhs), L::instantiate(&self.rhs));
        let l_id = egraph.add_expr(&lhs);
        let initial_size = egraph.number_of_classes();
        let r_id = egraph.add_expr(&rhs);
''')]
V["isvalid-match"] = [(RULE, '''        matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)''', '''        match L::validate(&self.lhs, &self.rhs) {
            ValidationResult::Valid => true,
            ValidationResult::Invalid | ValidationResult::Unknown => false,
        }''')]
V["isvalid-iflet"] = [(RULE, '''        matches!(L::validate(&self.lhs, &self.rhs), ValidationResult::Valid)''', '''        let verdict = L::validate(&self.lhs, &self.rhs);
        if let ValidationResult::Valid = verdict {
            return true;
        }
        false''')]

# scheduler
V["sched-fn"] = [(SCHED, '''                // Build a map from id in out to all of the ids in egraph that are equivalent
                let mut unions = HashMap::default();
                for id in ids {
                    let new_id = out.find(id);
                    unions.entry(new_id).or_insert_with(Vec::new).push(id);
                }

                for ids in unions.values() {
                    if ids.len() > 1 {
                        let first = ids[0];
                        for id in &ids[1..] {
                            clone.union(first, *id);
                        }
                    }
                }
                clone.rebuild();
                clone''', '''                Self::apply_merges(&mut clone, &out, ids);
                clone.rebuild();
                clone'''), (SCHED, '''    pub fn run<L: SynthLanguage>(''', '''    fn apply_merges<L: SynthLanguage>(
        target: &mut EGraph<L, SynthAnalysis>,
        merged: &EGraph<L, SynthAnalysis>,
        ids: Vec<Id>,
    ) {
        let mut unions = HashMap::default();
        for id in ids {
            unions
                .entry(merged.find(id))
                .or_insert_with(Vec::new)
                .push(id);
        }
        for group in unions.values() {
            if group.len() > 1 {
                let first = group[0];
                for &id in group.iter().skip(1) {
                    target.union(first, id);
                }
            }
        }
    }

    pub fn run<L: SynthLanguage>(''')]
V["sched-splitfirst"] = [(SCHED, '''                    if ids.len() > 1 {
                        let first = ids[0];
                        for id in &ids[1..] {
                            clone.union(first, *id);
                        }
                    }''', '''                    if let Some((first, rest)) = ids.split_first() {
                        for id in rest {
                            clone.union(*first, *id);
                        }
                    }''')]
V["sched-noguard"] = [(SCHED, '''                    if ids.len() > 1 {
                        let first = ids[0];
                        for id in &ids[1..] {
                            clone.union(first, *id);
                        }
                    }''', '''                    let first = ids[0];
                    for id in &ids[1..] {
                        clone.union(first, *id);
                    }''')]
V["sched-hook"] = [(SCHED, '''                    match (lhs, rhs) {
                        (Some(l), Some(r)) => {
                            if l == r {
                                Err("Done".to_owned())
                            } else {
                                Ok(())
                            }
                        }
                        _ => Ok(()),
                    }''', '''                    if let (Some(l), Some(r)) = (lhs, rhs) {
                        if l == r {
                            return Err("Done".to_owned());
                        }
                    }
                    Ok(())''')]
V["sched-hook2"] = [(SCHED, '''                    match (lhs, rhs) {
                        (Some(l), Some(r)) => {
                            if l == r {
                                Err("Done".to_owned())
                            } else {
                                Ok(())
                            }
                        }
                        _ => Ok(()),
                    }''', '''                    let proved = lhs.is_some() && lhs == rhs;
                    if proved {
                        Err(String::from("Done"))
                    } else {
                        Ok(())
                    }''')]
V["sched-sat"] = [(SCHED, '''                let (sat, other): (Vec<Rewrite<_, _>>, Vec<Rewrite<_, _>>) = (
                    (sat.0.iter().map(|(_, rule)| rule.rewrite.clone()).collect()),
                    (other
                        .0
                        .iter()
                        .map(|(_, rule)| rule.rewrite.clone())
                        .collect()),
                );
''', '''                let rewrites = |rules: &Ruleset<L>| -> Vec<Rewrite<L, SynthAnalysis>> {
                    rules.iter().map(|rule| rule.rewrite.clone()).collect()
                };
                let sat = rewrites(&sat);
                let other = rewrites(&other);
'''), (SCHED, '''                    // Other
                    runner = get_runner(
                        runner.egraph,
                        Limits {
                            iter: 1,
                            node: limits.node,
                            match_: limits.match_,
                        },
                    )
                    .run(&other);''', '''                    // Other
                    let one_step = Limits { iter: 1, ..*limits };
                    runner = get_runner(runner.egraph, one_step).run(&other);''')]
V["sched-while"] = [(SCHED, '''                for _ in 0..limits.iter {
                    // Sat''', '''                let mut step = 0;
                while step < limits.iter {
                    step += 1;
                    // Sat''')]
V["sched-egraph"] = [(SCHED, '''                let mut runner = get_runner(egraph.clone(), *limits)
                    .with_iter_limit(limits.iter)
                    .with_node_limit(limits.node)
                    .run(rewrites);
                runner.egraph.rebuild();
                runner.egraph''', '''                let runner = get_runner(egraph.clone(), *limits).run(rewrites);
                let mut out = runner.egraph;
                out.rebuild();
                out''')]
V["sched-order"] = [(SCHED, '''                .with_node_limit(limits.node)
                .with_iter_limit(limits.iter)
                .with_time_limit(Duration::from_secs(600))
                .with_egraph(egraph);''', '''                .with_egraph(egraph)
                .with_iter_limit(limits.iter)
                .with_node_limit(limits.node)
                .with_time_limit(Duration::from_secs(600));''')]
V["sched-internalrec"] = [(SCHED, '''                let out = Self::Simple(*limits).run(egraph, ruleset);''', '''                let simple = Scheduler::Simple(*limits);
                let out = simple.run_internal(egraph, ruleset, None);''')]
