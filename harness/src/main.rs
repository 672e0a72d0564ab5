//! `vh check <ID>`: decides one property. `vh replay <file>`: re-runs a recorded failure.
mod e2e;
mod lang;
mod props;
mod runner;
mod source;
mod strings;

use e2e::{E2e, Prog, Verdict};
use runner::{Failure, Stats, SubDyn};
use serde_json::{json, Value};
use source::Src;
use std::path::{Path, PathBuf};

/// A fixed program: the input of a defect that was found once.
pub struct Probe {
    pub name: &'static str,
    pub prog: Prog,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub runtime: Vec<Box<dyn SubDyn>>,
    pub e2e: Vec<E2e>,
    pub probes: Vec<Probe>,
    /// Other machinery: (name, function of seed, multiplier and scratch directory).
    pub other: Vec<(&'static str, fn(u64, u64, &Path) -> Result<runner::RunResult, String>)>,
}

impl Property {
    pub fn new(id: &'static str, rule: &'static str) -> Property {
        Property { id, rule, assumptions: vec![], runtime: vec![], e2e: vec![], probes: vec![], other: vec![] }
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VH_ROOT").expect("VH_ROOT"))
}

/// Scratch directory that is removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = PathBuf::from(std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp".into()));
        let p = base.join(format!("vh-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("VH_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn env_num(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(default)
}

/// Names of probes that fail because of a recorded defect: lines `known: property=<id> probe=<name> <text>`.
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={id} probe=")) else { continue };
        let (name, what) = rest.split_once(' ').unwrap_or((rest, ""));
        v.push((name.to_string(), what.to_string()));
    }
    v
}

fn merge(into: &mut Stats, s: Stats) {
    into.evaluations += s.evaluations;
    into.hashes.extend(s.hashes);
    for (k, v) in s.tags {
        *into.tags.entry(k).or_default() += v;
    }
    for (k, v) in s.per_sub {
        *into.per_sub.entry(k).or_default() += v;
    }
    into.samples.extend(s.samples);
    into.extra.extend(s.extra);
}

fn check(id: &str) -> Result<i32, String> {
    let t0 = std::time::Instant::now();
    let seed = env_num("VERIF_SEED", 1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mult = env_num("VH_MULT", if tier == "thorough" { 12 } else { 1 });
    let only = std::env::var("VH_ONLY").ok();
    let prop = props::get(id).ok_or_else(|| format!("unknown property {id}"))?;
    let scratch = Scratch::new();
    let mut stats = Stats::default();
    let mut failures: Vec<Failure> = vec![];
    let wanted = |n: &str| only.as_deref().map_or(true, |o| o == n);

    // the inputs of earlier findings
    if !prop.probes.is_empty() && only.is_none() {
        let env = e2e::RustEnv::load(None)?;
        let progs: Vec<Prog> = prop.probes.iter().map(|p| p.prog.clone()).collect();
        let vs = e2e::run_batch(&env, &progs, &scratch.0.join("probes"), e2e::Mode::Plain)?;
        let known = known(id);
        stats.extra.insert("probes".into(), json!(vs.len()));
        for (p, v) in prop.probes.iter().zip(vs) {
            stats.evaluations += 1;
            *stats.per_sub.entry("probes".into()).or_default() += 1;
            if let Verdict::Fail(m) = v {
                match known.iter().find(|k| k.0 == p.name) {
                    Some((_, what)) => println!("KNOWN-FINDING: property={id} {}: {what}", p.name),
                    None => failures.push(Failure {
                        sub: format!("probe:{}", p.name),
                        message: m,
                        choices: vec![],
                        shown: e2e::show(&p.prog),
                    }),
                }
            }
        }
    }
    if failures.is_empty() && !prop.runtime.is_empty() && (only.is_none() || prop.runtime.iter().any(|s| wanted(s.name()))) {
        let r = runner::run(id, &prop.runtime, seed, mult, &scratch.0)?;
        merge(&mut stats, r.stats);
        failures.extend(r.failures);
    }
    for e in &prop.e2e {
        if !failures.is_empty() {
            break;
        }
        if wanted(e.name) {
            let r = e2e::run(e, seed, mult, &scratch.0)?;
            merge(&mut stats, r.stats);
            failures.extend(r.failures);
        }
    }
    for (n, f) in &prop.other {
        if !failures.is_empty() {
            break;
        }
        if wanted(n) {
            let r = f(seed, mult, &scratch.0)?;
            merge(&mut stats, r.stats);
            failures.extend(r.failures);
        }
    }
    let mut samples = stats.samples.clone();
    samples.truncate(12);
    let mut coverage = json!({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": stats.hashes.len(),
        "rule": prop.rule,
        "samples": samples,
        "classes": stats.tags,
        "cases_per_subcheck": stats.per_sub,
    });
    for (k, v) in &stats.extra {
        coverage[k] = v.clone();
    }
    let evidence = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": failures.len(),
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap())
        .map_err(|e| e.to_string())?;
    for f in &failures {
        let dir = root().join("replay");
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let name: String = f.sub.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
        let path = dir.join(format!("{id}-{name}.json"));
        let v = json!({"property": id, "sub": f.sub, "message": f.message, "choices": f.choices, "case": f.shown});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).map_err(|e| e.to_string())?;
        println!("{id} {}: {}", f.sub, f.message);
        println!("{}", f.shown);
        println!("VIOLATION property={id} replay={}", path.display());
    }
    if failures.is_empty() {
        println!(
            "{id}: held on {} cases, {} of them distinct and non-trivial ({:.1} s)",
            stats.evaluations,
            stats.hashes.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    Ok(if failures.is_empty() { 0 } else { 1 })
}

fn load(file: &str) -> (Property, String, Vec<u32>) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let prop = props::get(v["property"].as_str().unwrap()).expect("property");
    let choices = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    (prop, v["sub"].as_str().unwrap().to_string(), choices)
}

/// Runs one recorded case. 0: it passes, 1: it fails.
fn replay(file: &str) -> Result<i32, String> {
    let (prop, sub, choices) = load(file);
    let scratch = Scratch::new();
    let m = if let Some(name) = sub.strip_prefix("probe:") {
        let p = prop.probes.iter().find(|p| p.name == name).ok_or("no such probe")?;
        let v = e2e::run_batch(&e2e::RustEnv::load(None)?, &[p.prog.clone()], &scratch.0.join("p"), e2e::Mode::Plain)?;
        match &v[0] {
            Verdict::Ok => None,
            Verdict::Fail(m) => Some(m.clone()),
        }
    } else if let Some(s) = prop.runtime.iter().find(|s| s.name() == sub) {
        println!("{}", s.show(&mut Src::replay(&choices)));
        s.run(&mut Src::replay(&choices)).0.err()
    } else if let Some(e) = prop.e2e.iter().find(|e| e.name == sub) {
        if let Some(p) = (e.gen)(&mut Src::replay(&choices)) {
            println!("{}", e2e::show(&p));
        }
        e2e::replay(e, &choices, &scratch.0)?
    } else {
        return Err(format!("no sub-check {sub}"));
    };
    match m {
        None => {
            println!("passes");
            Ok(0)
        }
        Some(m) => {
            println!("{m}\nVIOLATION property={} replay={file}", prop.id);
            Ok(1)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let r = match a(1) {
        "check" => check(a(2)),
        "replay" => replay(a(2)),
        "child" => {
            let prop = props::get(a(2)).expect("property");
            let n = |i: usize| a(i).parse::<u64>().unwrap();
            runner::child(&prop.runtime, n(3), n(4), n(5), Path::new(a(6)));
            Ok(0)
        }
        "one" => {
            let (prop, sub, choices) = load(a(2));
            std::panic::set_hook(Box::new(|_| {}));
            let s = prop.runtime.iter().find(|s| s.name() == sub).expect("sub-check");
            match s.run(&mut Src::replay(&choices)).0 {
                Ok(_) => Ok(0),
                Err(m) => {
                    println!("{m}");
                    Ok(1)
                }
            }
        }
        "gen" => {
            // print generated cases of an e2e sub-check: gen <prop> <sub> <seed> <n>
            let prop = props::get(a(2)).expect("property");
            let e = prop.e2e.iter().find(|e| e.name == a(3)).expect("sub-check");
            for i in 0..a(5).parse::<u64>().unwrap_or(3) {
                let mut s = Src::random(Src::case_seed(a(4).parse().unwrap_or(1), e.name, i));
                match (e.gen)(&mut s) {
                    Some(p) => println!("===== case {i} {:?} nontrivial={}\n{}", p.tags, p.nontrivial, e2e::show(&p)),
                    None => println!("===== case {i} discarded"),
                }
            }
            Ok(0)
        }
        "list" => {
            for id in props::IDS {
                println!("{id}");
            }
            Ok(0)
        }
        _ => Err("usage: vh check <ID> | replay <file>".into()),
    };
    match r {
        Ok(code) => std::process::exit(code),
        Err(m) => {
            eprintln!("vh: {m}");
            std::process::exit(2);
        }
    }
}
