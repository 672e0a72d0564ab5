//! Runs in-process (sub-)checks in worker processes, so that a crash of the tested code is an
//! observation and not the end of the run.
use crate::source::{shrink, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Default)]
pub struct Out {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

pub type Check = Result<Out, String>;

pub fn ok(nontrivial: bool, tags: Vec<&'static str>) -> Check {
    Ok(Out { nontrivial, tags })
}

pub struct Sub<C> {
    pub name: &'static str,
    /// Number of cases in the quick tier.
    pub quick: u64,
    pub gen: fn(&mut Src) -> C,
    pub check: fn(&C) -> Check,
}

pub trait SubDyn: Sync {
    fn name(&self) -> &'static str;
    fn quick(&self) -> u64;
    fn show(&self, s: &mut Src) -> String;
    fn run(&self, s: &mut Src) -> (Check, u64);
}

impl<C: std::fmt::Debug> SubDyn for Sub<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn quick(&self) -> u64 {
        self.quick
    }
    fn show(&self, s: &mut Src) -> String {
        format!("{:?}", (self.gen)(s))
    }
    fn run(&self, s: &mut Src) -> (Check, u64) {
        let case = (self.gen)(s);
        let h = crate::source::hash_str(&format!("{case:?}"));
        let r = catch_unwind(AssertUnwindSafe(|| (self.check)(&case)));
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {}", panic_msg(&*p))),
        };
        (r, h)
    }
}

pub fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

pub const WORKERS: u64 = 8;

#[derive(Debug, Clone)]
pub struct Failure {
    pub sub: String,
    pub message: String,
    pub choices: Vec<u32>,
    pub shown: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub hashes: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub per_sub: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub extra: BTreeMap<String, Value>,
}

pub struct RunResult {
    pub stats: Stats,
    pub failures: Vec<Failure>,
}

/// Everything one worker does; called in the child process.
pub fn child(subs: &[Box<dyn SubDyn>], seed: u64, mult: u64, worker: u64, dir: &Path) {
    std::panic::set_hook(Box::new(|_| {}));
    let progress = std::fs::File::create(dir.join(format!("progress.{worker}"))).unwrap();
    let mut hashes: Vec<u8> = vec![];
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut failures = vec![];
    let skip = read_skip(dir);
    for (k, sub) in subs.iter().enumerate() {
        let n = sub.quick() * mult;
        let mut i = worker;
        let mut tried = 0u64;
        while i < n {
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(k as u64).to_le_bytes());
            rec[8..].copy_from_slice(&i.to_le_bytes());
            if !skip.contains(&(k as u64, i)) {
                progress.write_all_at(&rec, 0).unwrap();
                limit_case();
                let mut src = Src::random(Src::case_seed(seed, sub.name(), i));
                let (r, h) = sub.run(&mut src);
                tried += 1;
                match r {
                    Ok(out) => {
                        if out.nontrivial {
                            hashes.extend_from_slice(&h.to_le_bytes());
                        }
                        for t in out.tags {
                            *tags.entry(format!("{}/{t}", sub.name())).or_default() += 1;
                        }
                        if out.nontrivial && samples.iter().filter(|(n, _)| n == &sub.name()).count() < 1 {
                            let mut src = Src::random(Src::case_seed(seed, sub.name(), i));
                            samples.push((sub.name(), clip(&sub.show(&mut src), 400)));
                        }
                    }
                    Err(_) => {
                        let choices = std::mem::take(&mut src.rec);
                        let best = shrink(
                            choices,
                            |c| {
                                let mut s = Src::replay(c);
                                match sub.run(&mut s).0 {
                                    Err(_) => Some(s.rec),
                                    Ok(_) => None,
                                }
                            },
                            20_000,
                        );
                        let message = sub.run(&mut Src::replay(&best)).0.err().unwrap_or_else(|| "not reproducible".into());
                        let shown = sub.show(&mut Src::replay(&best));
                        failures.push(json!({"sub": sub.name(), "message": message, "choices": best, "shown": shown}));
                        break;
                    }
                }
            }
            i += WORKERS;
        }
        *per_sub.entry(sub.name().to_string()).or_default() += tried;
    }
    std::fs::write(dir.join(format!("hashes.{worker}")), hashes).unwrap();
    let summary = json!({"tags": tags, "per_sub": per_sub, "failures": failures,
        "samples": samples.iter().map(|(n, s)| json!({"sub": n, "case": s})).collect::<Vec<_>>()});
    std::fs::write(dir.join(format!("summary.{worker}")), summary.to_string()).unwrap();
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

fn read_skip(dir: &Path) -> HashSet<(u64, u64)> {
    std::fs::read_to_string(dir.join("skip"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}

/// Seconds of CPU time that a case may take; most take less than a millisecond.
const CASE_CPU: i64 = 20;

/// Ends this process by SIGVTALRM unless it is called again in time.
fn limit_case() {
    extern "C" {
        fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    }
    const ITIMER_VIRTUAL: i32 = 1;
    // interval and value, each in seconds and microseconds
    let t = [0, 0, CASE_CPU, 0];
    unsafe {
        setitimer(ITIMER_VIRTUAL, &t, std::ptr::null_mut());
    }
}

/// Runs one case in a process of its own. Returns the description of its failure.
fn run_alone(prop: &str, sub: &str, choices: &[u32], dir: &Path, cpu: u64) -> Option<String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let f = dir.join(format!("alone.{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::write(&f, json!({"property": prop, "sub": sub, "choices": choices}).to_string()).unwrap();
    let me = std::env::current_exe().unwrap();
    let out = Command::new("bash")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -Ht {}; ulimit -St {cpu}; exec \"$0\" one \"$1\"", cpu + 5))
        .arg(&me)
        .arg(&f)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .unwrap();
    let _ = std::fs::remove_file(&f);
    if let Some(sig) = out.status.signal() {
        return Some(format!("the process died by signal {sig} ({})", signal_name(sig)));
    }
    match out.status.code() {
        Some(0) => None,
        _ => Some(String::from_utf8_lossy(&out.stdout).trim().to_string()),
    }
}

pub fn signal_name(sig: i32) -> &'static str {
    match sig {
        11 => "SIGSEGV, stack overflow",
        6 => "SIGABRT, stack overflow or abort",
        24 => "SIGXCPU, does not terminate",
        26 => "SIGVTALRM, does not terminate",
        9 => "SIGKILL",
        _ => "?",
    }
}

pub fn run(prop: &str, subs: &[Box<dyn SubDyn>], seed: u64, mult: u64, scratch: &Path) -> Result<RunResult, String> {
    let dir: PathBuf = scratch.join("workers");
    std::fs::create_dir_all(&dir).unwrap();
    let mut res = RunResult { stats: Stats::default(), failures: vec![] };
    let me = std::env::current_exe().unwrap();
    let mut skip = HashSet::new();
    for round in 0..4 {
        let mut kids = vec![];
        for w in 0..WORKERS {
            if dir.join(format!("summary.{w}")).exists() {
                continue;
            }
            let kid = Command::new("bash")
                .arg("-c")
                .arg(format!("ulimit -t {}; ulimit -c 0; exec \"$0\" child \"$1\" {seed} {mult} {w} \"$2\"", 200 * mult.min(20)))
                .arg(&me)
                .arg(prop)
                .arg(&dir)
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            kids.push((w, kid));
        }
        let mut crashed = vec![];
        for (w, mut kid) in kids {
            let st = kid.wait().unwrap();
            if !dir.join(format!("summary.{w}")).exists() {
                crashed.push((w, st));
            }
        }
        if crashed.is_empty() {
            break;
        }
        if round == 3 {
            return Err("workers keep crashing".into());
        }
        for (w, st) in crashed {
            let rec = std::fs::read(dir.join(format!("progress.{w}"))).unwrap_or_default();
            if rec.len() < 16 {
                return Err(format!("worker {w} ended with {st} before its first case"));
            }
            let k = u64::from_le_bytes(rec[..8].try_into().unwrap());
            let i = u64::from_le_bytes(rec[8..].try_into().unwrap());
            let sub = &subs[k as usize];
            skip.insert((k, i));
            if res.failures.iter().any(|f| f.sub == sub.name()) {
                continue;
            }
            let mut src = Src::random(Src::case_seed(seed, sub.name(), i));
            let _ = sub.show(&mut src);
            let choices = src.rec;
            match run_alone(prop, sub.name(), &choices, &dir, 2 * CASE_CPU as u64) {
                None => return Err(format!("worker {w} ended with {st} in case {i} of {}, which alone does not fail", sub.name())),
                Some(msg) => {
                    let hang = msg.contains("does not terminate");
                    let best = shrink(
                        choices,
                        |c| {
                            run_alone(prop, sub.name(), c, &dir, 10)?;
                            let mut s = Src::replay(c);
                            let _ = sub.show(&mut s);
                            Some(s.rec)
                        },
                        if hang { 12 } else { 400 },
                    );
                    let message = run_alone(prop, sub.name(), &best, &dir, 2 * CASE_CPU as u64).unwrap_or(msg);
                    let shown = sub.show(&mut Src::replay(&best));
                    res.failures.push(Failure { sub: sub.name().into(), message, choices: best, shown });
                }
            }
        }
        let mut f = std::fs::File::create(dir.join("skip")).unwrap();
        for (k, i) in &skip {
            writeln!(f, "{k} {i}").unwrap();
        }
        if !res.failures.is_empty() {
            break;
        }
    }
    for w in 0..WORKERS {
        let Ok(text) = std::fs::read_to_string(dir.join(format!("summary.{w}"))) else { continue };
        let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        for (k, n) in v["per_sub"].as_object().unwrap() {
            *res.stats.per_sub.entry(k.clone()).or_default() += n.as_u64().unwrap();
            res.stats.evaluations += n.as_u64().unwrap();
        }
        for (k, n) in v["tags"].as_object().unwrap() {
            *res.stats.tags.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        for s in v["samples"].as_array().unwrap() {
            if res.stats.samples.iter().filter(|x| x["sub"] == s["sub"]).count() < 2 {
                res.stats.samples.push(s.clone());
            }
        }
        for f in v["failures"].as_array().unwrap() {
            let fail = Failure {
                sub: f["sub"].as_str().unwrap().into(),
                message: f["message"].as_str().unwrap().into(),
                choices: f["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
                shown: f["shown"].as_str().unwrap().into(),
            };
            // keep the simplest failure of each sub-check
            match res.failures.iter_mut().find(|g| g.sub == fail.sub) {
                Some(g) if crate::source::simpler(&fail.choices, &g.choices) => *g = fail,
                Some(_) => {}
                None => res.failures.push(fail),
            }
        }
        let h = std::fs::read(dir.join(format!("hashes.{w}"))).unwrap_or_default();
        for c in h.chunks_exact(8) {
            res.stats.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    Ok(res)
}
