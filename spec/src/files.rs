use ruler::enumo::*;
use ruler::*;
use std::io::{BufRead, Write};
use std::fs::{self, OpenOptions};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub fn Ruleset__to_file<L: SynthLanguage>(this: &Ruleset<L>, filename: &str) {
    let mut file = std::fs::File::create(filename).unwrap_or_else(|_| panic!());
    for (name, _) in &this.0 {
        writeln!(file, "{}", name).expect("Unable to write");
    }
}
pub fn Ruleset__from_file<L: SynthLanguage>(filename: &str) -> Ruleset<L> {
    let infile = std::fs::File::open(filename).expect("can't open file");
    let reader = std::io::BufReader::new(infile);
    let mut m = IndexMap::default();
    for line in reader.lines() {
        let line = line.unwrap();
        if let Ok((f, b)) = Rule::from_string(&line) {
            m.insert(f.name.clone(), f);
            if let Some(b) = b {
                m.insert(b.name.clone(), b);
            }
        }
    }
    Ruleset(m)
}
pub fn Workload__to_file(this: &Workload, filename: &str) {
    let mut file = std::fs::File::create(filename).unwrap_or_else(|_| panic!());
    for t in &this.force() {
        writeln!(file, "{}", t).expect("Unable to write");
    }
}
pub fn Workload__from_file(filename: &str) -> Workload {
    let infile = std::fs::File::open(filename).expect("can't open file");
    let reader = std::io::BufReader::new(infile);
    let mut sexps = vec![];
    for line in reader.lines() {
        sexps.push(line.unwrap().parse().unwrap());
    }
    Workload::Set(sexps)
}

fn add_row(json: Value) {
    let path = "nightly/data/output.json";
    std::fs::create_dir_all("nightly/data").unwrap_or_else(|e| panic!("Error creating dir: {}", e));
    OpenOptions::new().read(true).write(true).create(true).open(path).expect("Unable to open or create file");
    let s = fs::read_to_string(path).expect("Unable to read file");
    let mut contents: Vec<Value> =
        if s.is_empty() { vec![] } else { serde_json::from_str(&s).expect("Unable to parse json") };
    contents.push(json);
    std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap()).expect("Unable to write to json file");
}
pub fn logger__add_json_to_file(json: Value) {
    add_row(json)
}
fn derivability<L: SynthLanguage>(ruleset: &Ruleset<L>, against: &Ruleset<L>, derive_type: DeriveType) -> Value {
    let start = Instant::now();
    let (can, cannot) = ruleset.derive(derive_type, against, Limits::deriving());
    let elapsed = start.elapsed();
    json!({
        "derive_type": derive_type,
        "can": can.to_str_vec(),
        "cannot": cannot.to_str_vec(),
        "time": elapsed.as_secs_f64()
    })
}
pub fn logger__write_baseline<L: SynthLanguage>(ruleset: &Ruleset<L>, spec_name: &str, baseline: &Ruleset<L>,
    baseline_name: &str, time: Duration) {
    let skip = vec![("herbie", "rational_replicate"), ("herbie", "rational_best")];
    let loc = count_lines(spec_name).map(|x| x.to_string()).unwrap_or_else(|| "-".to_string());
    let forward = if skip.contains(&(spec_name, baseline_name)) {
        json!({})
    } else {
        json!({
            "lhs": derivability(ruleset, baseline, DeriveType::Lhs),
            "lhs_rhs": derivability(ruleset, baseline, DeriveType::LhsAndRhs)
        })
    };
    let backward = if skip.contains(&(baseline_name, spec_name)) {
        json!({})
    } else {
        json!({
            "lhs": derivability(baseline, ruleset, DeriveType::Lhs),
            "lhs_rhs": derivability(baseline, ruleset, DeriveType::LhsAndRhs)
        })
    };
    add_row(json!({
        "TYPE": "baseline",
        "spec_name": spec_name,
        "baseline_name": baseline_name,
        "loc": loc,
        "rules": ruleset.to_str_vec(),
        "time": time.as_secs_f64(),
        "derivability": json!({
            "enumo_derives_baseline": forward,
            "baseline_derives_enumo": backward
        })
    }))
}
pub fn logger__write_bv_derivability<L: SynthLanguage>(domain: &str, gen_rules: Ruleset<L>, gen_time: Duration,
    ported_bv4_rules: Ruleset<L>) {
    let start = Instant::now();
    let (sound, _) = ported_bv4_rules.partition(|rule| rule.is_valid());
    let validate_time = start.elapsed();
    let start = Instant::now();
    let (can, cannot) = sound.derive(DeriveType::LhsAndRhs, &gen_rules, Limits::deriving());
    let derive_time = start.elapsed();
    let lhsrhs = json!({
        "can": can.to_str_vec(),
        "cannot": cannot.to_str_vec(),
        "time": derive_time.as_secs_f64()
    });
    let start = Instant::now();
    let (can, cannot) = sound.derive(DeriveType::Lhs, &gen_rules, Limits::deriving());
    let derive_time = start.elapsed();
    let lhs = json!({
        "can": can.to_str_vec(),
        "cannot": cannot.to_str_vec(),
        "time": derive_time.as_secs_f64()
    });
    add_row(json!({
        "TYPE": "bv",
        "domain": domain,
        "direct_gen": json!({
            "rules": gen_rules.to_str_vec(),
            "time": gen_time.as_secs_f64()
        }),
        "from_bv4": json!({
            "rules": sound.to_str_vec(),
            "time": validate_time.as_secs_f64()
        }),
        "derivability": json!({
            "lhs": lhs,
            "lhs_rhs": lhsrhs
        })
    }))
}
pub fn logger__write_ff_phase<L: SynthLanguage>(phase1: Phase<L>, phase2: Phase<L>, phase3: Phase<L>, time: Duration,
    rules: &Ruleset<L>) {
    add_row(json!({
        "TYPE": "ff_phases",
        "phase1": format!("{}", phase1),
        "phase2": format!("{}", phase2),
        "phase3": format!("{}", phase3),
        "time": time.as_secs_f64(),
        "rules": rules.to_str_vec()
    }))
}
pub fn util__count_lines(name: &str) -> Option<usize> {
    match std::fs::File::open(format!("tests/recipes/{}.rs", name)) {
        Ok(f) => Some(std::io::BufReader::new(f).lines().count()),
        Err(_) => None,
    }
}
