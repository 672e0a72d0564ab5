//! Compiles and runs generated programs that use the derive macro of the current tree.
use crate::runner::{clip, Failure, RunResult, Stats};
use crate::source::{hash_str, shrink_candidates, simpler, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// Placeholder for the name of the directory of a case, replaced when a batch is written.
pub const DIR: &str = "CASEDIR";

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// The program compiles, and `run()` pushes these (name, output) pairs.
    Outputs(Vec<(String, String)>),
    /// The derive macro reports an error (and does not panic).
    CompileError,
    /// `run()` pushes pairs of equal strings (the second is what rustc made of the equivalent).
    Pairs,
}

#[derive(Clone, Debug)]
pub struct Prog {
    /// Files relative to CARGO_MANIFEST_DIR; `DIR` is replaced in paths and contents.
    pub files: Vec<(String, String)>,
    /// Module content; defines `pub fn run(o: &mut Vec<String>)`.
    pub code: String,
    pub expect: Expect,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    /// Files that have to be registered as dependencies; checked if `E2e::deps` is set.
    pub deps: Vec<String>,
}

/// What is checked besides the outputs of the programs.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Plain,
    /// The dependencies that the compiler reports.
    Deps,
    /// Instead of the outputs: two runs of the compiler print the same code and the same errors.
    Twice,
    /// What `print` prints, and that the printed code does what the derived code does.
    Printed,
}

pub struct E2e {
    pub name: &'static str,
    pub quick: u64,
    pub batch: usize,
    /// None: the generated case is discarded.
    pub gen: fn(&mut Src) -> Option<Prog>,
    pub mode: Mode,
    /// The web framework whose integration is used instead of askama itself, if any.
    pub web: Option<&'static str>,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok,
    Fail(String),
}

#[derive(Clone)]
pub struct RustEnv {
    pub edition: &'static str,
    pub rlib: PathBuf,
    pub deps: PathBuf,
    pub extra: Vec<(String, PathBuf)>,
}

impl RustEnv {
    /// From the messages of `cargo build --message-format=json`.
    pub fn load(web: Option<&str>) -> Result<RustEnv, String> {
        let mut meta = std::env::var("VH_META").map_err(|_| "VH_META is not set".to_string())?;
        if let Some(w) = web {
            meta = meta.replace(".json", &format!("-{w}.json"));
        }
        let text = std::fs::read_to_string(&meta).map_err(|e| format!("{meta}: {e}"))?;
        let mut found: HashMap<String, PathBuf> = HashMap::new();
        for line in text.lines() {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").to_string();
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if f.ends_with(".rlib") {
                    found.insert(name.clone(), PathBuf::from(f));
                }
            }
        }
        let (main, lib) = match web {
            // only other features
            Some(w) if w.starts_with('f') => ("askama".to_string(), String::new()),
            Some(w) => (format!("askama_{w}"), format!("web_{w}")),
            None => ("askama".to_string(), String::new()),
        };
        let rlib = found.get(&main).ok_or("no askama rlib")?.clone();
        let deps = rlib.parent().unwrap().to_path_buf();
        let deps = if deps.ends_with("deps") { deps } else { deps.join("deps") };
        let extra = found
            .into_iter()
            .filter(|(n, _)| n == "serde_json" || n == "askama_escape" || *n == lib || (web.is_some() && *n == main))
            .map(|(n, p)| (if n == lib { "web".to_string() } else { n }, p))
            .collect();
        Ok(RustEnv { edition: EDITIONS[0], rlib, deps, extra })
    }
}

/// Most batches are compiled in the first edition, every fourth one in the second.
const EDITIONS: &[&str] = &["2021", "2024"];

const PRELUDE: &str = include_str!("prelude.rs.txt");

fn subst(s: &str, idx: usize) -> String {
    s.replace(DIR, &format!("c{idx}"))
}

fn write_batch(progs: &[(usize, &Prog)], dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::create_dir_all(dir.join("templates")).unwrap();
    std::fs::write(dir.join("src/p.rs"), PRELUDE).unwrap();
    let mut main = String::from(
        "#![allow(warnings, arithmetic_overflow, unconditional_panic)]\nmod p;\n",
    );
    for (idx, p) in progs {
        main.push_str(&format!("mod m{idx};\n"));
        std::fs::write(dir.join(format!("src/m{idx}.rs")), subst(&p.code, *idx)).unwrap();
        for (path, content) in &p.files {
            let path = dir.join(subst(path, *idx));
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(path, subst(content, *idx)).unwrap();
        }
    }
    main.push_str("fn main() {\n    let cases: &[(usize, fn(&mut Vec<String>))] = &[\n");
    for (idx, p) in progs {
        if p.expect != Expect::CompileError {
            main.push_str(&format!("        ({idx}, m{idx}::run),\n"));
        }
    }
    main.push_str("    ];\n    p::drive(cases)\n}\n");
    std::fs::write(dir.join("src/main.rs"), main).unwrap();
}

struct Compiled {
    ok: bool,
    signal: bool,
    errors: BTreeMap<usize, Vec<String>>,
    unattributed: Vec<String>,
    /// What the macro printed.
    printed: String,
}

fn span_case(spans: &Value, primary: bool) -> Option<usize> {
    for s in spans.as_array()? {
        if primary && s["is_primary"] != true {
            continue;
        }
        let mut s = s;
        loop {
            if let Some(f) = s["file_name"].as_str() {
                if let Some(n) = f.rsplit('/').next().and_then(|f| f.strip_prefix('m')).and_then(|f| f.strip_suffix(".rs")) {
                    if let Ok(n) = n.parse() {
                        return Some(n);
                    }
                }
            }
            if s["expansion"].is_object() {
                s = &s["expansion"]["span"];
            } else {
                break;
            }
        }
    }
    None
}

fn compile(env: &RustEnv, dir: &Path, cases: usize, check_only: bool) -> Compiled {
    let mut cmd = Command::new("bash");
    // a macro that never ends, or allocates without end, is stopped
    let seconds = 30 + 3 * cases;
    cmd.arg("-c").arg(format!("ulimit -t {seconds}; ulimit -v 9000000; ulimit -c 0; exec rustc \"$@\"")).arg("rustc");
    cmd.args(["--edition", env.edition, "--crate-name", "batch", "--crate-type", "bin", "--error-format=json"])
        .args(["-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1", "-C", "overflow-checks=yes"])
        .args(["-C", "strip=debuginfo"])
        .arg("-L")
        .arg(format!("dependency={}", env.deps.display()))
        .arg("--extern")
        .arg(format!("askama={}", env.rlib.display()));
    for (n, p) in &env.extra {
        cmd.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    if check_only {
        cmd.args(["--emit=metadata,dep-info"]);
    } else {
        cmd.args(["--emit=link,dep-info"]);
    }
    cmd.arg("--out-dir").arg(dir).arg(dir.join("src/main.rs"));
    let out = cmd
        .current_dir(dir)
        .env("CARGO_MANIFEST_DIR", dir)
        .stdin(Stdio::null())
        .output()
        .expect("rustc");
    let mut c = Compiled {
        ok: out.status.success(),
        signal: std::os::unix::process::ExitStatusExt::signal(&out.status).is_some(),
        errors: BTreeMap::new(),
        unattributed: vec![],
        printed: String::new(),
    };
    for line in String::from_utf8_lossy(&out.stderr).lines() {
        let message = serde_json::from_str::<Value>(line).ok().filter(|v| v.get("$message_type").is_some());
        let Some(v) = message else {
            if !line.trim().is_empty() {
                c.unattributed.push(line.to_string());
                c.printed.push_str(line);
                c.printed.push('\n');
            }
            continue;
        };
        if v["level"] != "error" && v["level"] != "error: internal compiler error" {
            continue;
        }
        let msg = v["rendered"].as_str().or(v["message"].as_str()).unwrap_or("").to_string();
        if msg.starts_with("error: aborting due to") {
            continue;
        }
        let case = span_case(&v["spans"], true).or_else(|| span_case(&v["spans"], false));
        match case {
            Some(n) => c.errors.entry(n).or_default().push(msg),
            None => c.unattributed.push(msg),
        }
    }
    c
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8_lossy(&b).into_owned()
}

/// Decides all cases of a batch.
pub fn run_batch(
    env: &RustEnv,
    progs: &[Prog],
    dir: &Path,
    mode: Mode,
) -> Result<Vec<Verdict>, String> {
    match mode {
        Mode::Twice => return compile_twice(env, progs, dir),
        Mode::Printed => return compare_printed(env, progs, dir),
        _ => {}
    }
    let deps = mode == Mode::Deps;
    let mut verdicts: Vec<Option<Verdict>> = vec![None; progs.len()];
    let ce: Vec<usize> = (0..progs.len()).filter(|&i| progs[i].expect == Expect::CompileError).collect();
    if !ce.is_empty() {
        decide_compile_errors(env, progs, &ce, dir, &mut verdicts)?;
    }
    let mut live: Vec<usize> = (0..progs.len()).filter(|&i| progs[i].expect != Expect::CompileError).collect();
    let mut rounds = 0;
    while !live.is_empty() {
        rounds += 1;
        if rounds > 30 {
            return Err("too many compilation rounds".into());
        }
        let set: Vec<(usize, &Prog)> = live.iter().map(|&i| (i, &progs[i])).collect();
        write_batch(&set, dir);
        let c = compile(env, dir, set.len(), false);
        if c.ok {
            break;
        }
        if c.errors.is_empty() {
            // the compiler died: find out who is to blame
            if live.len() == 1 {
                let why = if c.signal { "the compiler was killed (crash or endless loop): " } else { "" };
                verdicts[live[0]] = Some(Verdict::Fail(format!("does not compile: {why}{}", clip(&c.unattributed.join("\n"), 1500))));
                live.clear();
            } else {
                let mid = live.len() / 2;
                let mut rest = vec![];
                for half in [&live[..mid], &live[mid..]] {
                    if verdicts.iter().flatten().any(|v| matches!(v, Verdict::Fail(_))) {
                        // one culprit is enough
                        half.iter().for_each(|&i| verdicts[i] = Some(Verdict::Ok));
                        continue;
                    }
                    let sub: Vec<Prog> = half.iter().map(|&i| progs[i].clone()).collect();
                    let vs = run_batch(env, &sub, dir, mode)?;
                    for (&i, v) in half.iter().zip(vs) {
                        verdicts[i] = Some(v);
                    }
                    rest.extend_from_slice(half);
                }
                live.clear();
            }
        } else {
            for (i, msgs) in c.errors {
                verdicts[i] = Some(Verdict::Fail(format!("does not compile: {}", clip(&msgs.join("\n"), 1500))));
                live.retain(|&x| x != i);
            }
        }
    }
    if !live.is_empty() {
        execute(progs, &live, dir, &mut verdicts)?;
        if deps {
            let text = std::fs::read_to_string(dir.join("batch.d")).map_err(|e| format!("dep-info: {e}"))?;
            let files: Vec<String> = text
                .lines()
                .filter_map(|l| l.strip_suffix(':'))
                .map(|l| l.strip_prefix(&format!("{}/", dir.display())).unwrap_or(l).to_string())
                .collect();
            for &i in &live {
                for d in &progs[i].deps {
                    if let Some(Verdict::Ok) = &verdicts[i] {
                        if !files.contains(&subst(d, i)) {
                            verdicts[i] = Some(Verdict::Fail(format!("{d} is not registered as a dependency")));
                        }
                    }
                }
            }
        }
    }
    Ok(verdicts.into_iter().map(|v| v.unwrap_or(Verdict::Fail("no verdict".into()))).collect())
}

fn decide_compile_errors(env: &RustEnv, progs: &[Prog], set: &[usize], dir: &Path, verdicts: &mut [Option<Verdict>]) -> Result<(), String> {
    let list: Vec<(usize, &Prog)> = set.iter().map(|&i| (i, &progs[i])).collect();
    write_batch(&list, dir);
    let c = compile(env, dir, set.len(), true);
    if c.errors.is_empty() && !c.ok && set.len() > 1 {
        let mid = set.len() / 2;
        decide_compile_errors(env, progs, &set[..mid], dir, verdicts)?;
        if verdicts.iter().flatten().any(|v| matches!(v, Verdict::Fail(_))) {
            // one culprit is enough
            set[mid..].iter().for_each(|&i| verdicts[i] = Some(Verdict::Ok));
            return Ok(());
        }
        return decide_compile_errors(env, progs, &set[mid..], dir, verdicts);
    }
    // errors of other cases may hide the errors that later passes of the compiler find
    let silent: Vec<usize> = set.iter().copied().filter(|i| !c.errors.contains_key(i)).collect();
    if !c.errors.is_empty() && !silent.is_empty() {
        decide_compile_errors(env, progs, &silent, dir, verdicts)?;
    }
    for &i in set {
        if !c.errors.is_empty() && silent.contains(&i) {
            continue;
        }
        let v = match c.errors.get(&i) {
            None if c.ok || !c.errors.is_empty() => Verdict::Fail("the invalid template is accepted".into()),
            None => {
                let why = if c.signal { "the compiler was killed (crash or endless loop)" } else { "the compiler crashed" };
                Verdict::Fail(format!("{why}: {}", clip(&c.unattributed.join("\n"), 1500)))
            }
            Some(msgs) => {
                let all = msgs.join("\n");
                if all.contains("proc-macro derive panicked") || all.contains("proc-macro derive produced unparsable tokens") {
                    Verdict::Fail(format!("the derive macro panics instead of reporting an error: {}", clip(&all, 1500)))
                } else if !["derive(", "template(", "struct ", "enum "].iter().any(|w| all.contains(w)) {
                    Verdict::Fail(format!("the template is accepted, there are only other errors: {}", clip(&all, 1500)))
                } else {
                    Verdict::Ok
                }
            }
        };
        verdicts[i] = Some(v);
    }
    Ok(())
}

/// Compiles the programs in two processes, with different hash seeds. They have to print the same.
fn compile_twice(env: &RustEnv, progs: &[Prog], dir: &Path) -> Result<Vec<Verdict>, String> {
    let all: Vec<(usize, &Prog)> = progs.iter().enumerate().collect();
    let observe = |set: &[(usize, &Prog)]| {
        write_batch(set, dir);
        let c = compile(env, dir, set.len(), true);
        (c.printed, c.errors, c.unattributed)
    };
    let mut verdicts = vec![Verdict::Ok; progs.len()];
    let first = observe(&all);
    for _ in 0..2 {
        if observe(&all) == first {
            continue;
        }
        let mut found = false;
        for one in &all {
            let first = observe(&[*one]);
            if let Some(other) = (0..8).map(|_| observe(&[*one])).find(|o| *o != first) {
                let (a, b) = (format!("{}{:?}", first.0, first.1), format!("{}{:?}", other.0, other.1));
                let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
                let cut = |s: &str| clip(&String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(80).min(s.len())..]), 300);
                verdicts[one.0] = Verdict::Fail(format!("the macro does not always generate the same: {}\n--- and\n{}", cut(&a), cut(&b)));
                found = true;
            }
        }
        if !found && !progs.is_empty() {
            verdicts[0] = Verdict::Fail("the batch that starts with this program is not always compiled to the same code".into());
        }
        break;
    }
    Ok(verdicts)
}

const PRINT: &str = ", print = \"code\"";

/// The printed code replaces the derived code, and other values of `print` print what they should.
fn compare_printed(env: &RustEnv, progs: &[Prog], dir: &Path) -> Result<Vec<Verdict>, String> {
    let mut verdicts: Vec<Option<Verdict>> = vec![None; progs.len()];
    let with = |p: &Prog, to: &str| Prog { code: p.code.replace(PRINT, to), ..p.clone() };
    let mut replaced = vec![];
    for (i, p) in progs.iter().enumerate() {
        let printed = |to: &str| {
            let q = with(p, to);
            write_batch(&[(i, &q)], dir);
            compile(env, dir, 1, true)
        };
        let c = printed(PRINT);
        if !c.ok {
            verdicts[i] = Some(Verdict::Fail(format!("does not compile: {}", clip(&format!("{:?}{:?}", c.errors, c.unattributed), 1500))));
            replaced.push(p.clone());
            continue;
        }
        let code = c.printed;
        let all = printed(", print = \"all\"").printed;
        let ast = printed(", print = \"ast\"").printed;
        let why = if code.is_empty() {
            Some("print = \"code\" prints nothing".to_string())
        } else if ast.is_empty() {
            Some("print = \"ast\" prints nothing".to_string())
        } else if all != format!("{ast}{code}") {
            Some(format!("print = \"all\" prints something else than the tree and the code:\n{}", clip(&all, 1500)))
        } else {
            let c = printed([", print = \"none\"", ""][i % 2]);
            (!c.printed.is_empty()).then(|| format!("something is printed without being asked for: {}", clip(&c.printed, 500)))
        };
        verdicts[i] = why.map(Verdict::Fail);
        // the printed code instead of the derived one
        let mut q = p.clone();
        let mut rest = String::new();
        for l in p.code.split_inclusive('\n') {
            if !l.starts_with("#[derive(Template)]") && !l.starts_with("#[template(") {
                rest.push_str(l);
            }
        }
        q.code = format!("{rest}\n{code}");
        replaced.push(q);
    }
    for set in [replaced, progs.iter().map(|p| with(p, "")).collect()] {
        for (v, w) in verdicts.iter_mut().zip(run_batch(env, &set, dir, Mode::Plain)?) {
            match v {
                None | Some(Verdict::Ok) => *v = Some(w),
                _ => {}
            }
        }
    }
    Ok(verdicts.into_iter().map(|v| v.unwrap()).collect())
}

fn execute(progs: &[Prog], live: &[usize], dir: &Path, verdicts: &mut [Option<Verdict>]) -> Result<(), String> {
    let mut outs: HashMap<usize, Vec<String>> = HashMap::new();
    let mut from = 0usize;
    for _ in 0..50 {
        let out = Command::new("bash")
            .arg("-c")
            .arg("ulimit -t 60; ulimit -c 0; exec ./batch \"$0\"")
            .arg(from.to_string())
            .current_dir(dir)
            .stdin(Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        let mut current = None;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let mut it = l.split(' ');
            match (it.next(), it.next().and_then(|x| x.parse::<usize>().ok())) {
                (Some("B"), Some(i)) => {
                    current = Some(i);
                    outs.insert(i, vec![]);
                }
                (Some("O"), Some(i)) => {
                    let s = unhex(it.next().unwrap_or(""));
                    outs.entry(i).or_default().push(s);
                }
                (Some("P"), Some(i)) => {
                    let s = unhex(it.next().unwrap_or(""));
                    verdicts[i] = Some(Verdict::Fail(format!("panics at run time: {s}")));
                }
                (Some("E"), Some(_)) => current = None,
                _ => {}
            }
        }
        if out.status.success() {
            break;
        }
        match current {
            Some(i) => {
                verdicts[i] = Some(Verdict::Fail(format!("the generated program crashes: {}", out.status)));
                from = i + 1;
            }
            None => return Err(format!("batch program: {}", out.status)),
        }
    }
    for &i in live {
        if verdicts[i].is_some() {
            continue;
        }
        let got = outs.remove(&i).unwrap_or_default();
        verdicts[i] = Some(match &progs[i].expect {
            Expect::Outputs(exp) => {
                let mut v = Verdict::Ok;
                if exp.len() != got.len() {
                    v = Verdict::Fail(format!("expected {} outputs, got {}", exp.len(), got.len()));
                }
                for ((name, e), g) in exp.iter().zip(&got) {
                    if e != g {
                        v = Verdict::Fail(format!("{name}: expected {e:?} but got {g:?}"));
                        break;
                    }
                }
                v
            }
            Expect::Pairs => {
                let mut v = Verdict::Ok;
                if got.is_empty() || got.len() % 2 == 1 {
                    v = Verdict::Fail("odd number of outputs".into());
                }
                for p in got.chunks(2) {
                    if p.len() == 2 && p[0] != p[1] {
                        v = Verdict::Fail(format!("askama rendered {:?} but Rust evaluates to {:?}", p[0], p[1]));
                        break;
                    }
                }
                v
            }
            Expect::CompileError => unreachable!(),
        });
    }
    Ok(())
}

fn try_gen(e: &E2e, s: &mut Src) -> Option<Prog> {
    match catch_unwind(AssertUnwindSafe(|| (e.gen)(s))) {
        Ok(p) => p,
        Err(p) => {
            eprintln!("generator of {} panicked: {}", e.name, crate::runner::panic_msg(&*p));
            std::process::exit(3);
        }
    }
}

pub fn show(p: &Prog) -> String {
    let mut o = String::new();
    for (f, c) in &p.files {
        o.push_str(&format!("--- {f}\n{c}\n"));
    }
    o.push_str(&format!("--- module\n{}\n--- expected\n{:?}\n", p.code, p.expect));
    o
}

pub fn run(e: &E2e, seed: u64, mult: u64, scratch: &Path) -> Result<RunResult, String> {
    let envs = editions(e)?;
    let total = e.quick * mult;
    let nb = (total as usize + e.batch - 1) / e.batch;
    let next = AtomicUsize::new(0);
    let discarded = AtomicUsize::new(0);
    let failed: Mutex<Vec<(Vec<u32>, String, &RustEnv)>> = Mutex::new(vec![]);
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let error: Mutex<Option<String>> = Mutex::new(None);
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for w in 0..8 {
            let (next, discarded, failed, stats, error, envs, stop) = (&next, &discarded, &failed, &stats, &error, &envs, &stop);
            sc.spawn(move || loop {
                let b = next.fetch_add(1, Ordering::SeqCst);
                if b >= nb || stop.load(Ordering::SeqCst) {
                    break;
                }
                let env = &envs[if b % 4 == 3 { envs.len() - 1 } else { 0 }];
                let mut progs = vec![];
                let mut choices = vec![];
                for i in 0..e.batch {
                    let i = (b * e.batch + i) as u64;
                    if i >= total {
                        break;
                    }
                    for attempt in 0..20u64 {
                        let mut s = Src::random(Src::case_seed(seed, e.name, i + (attempt << 40)));
                        match try_gen(e, &mut s) {
                            Some(p) => {
                                progs.push(p);
                                choices.push(s.rec);
                                break;
                            }
                            None => {
                                discarded.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                    }
                }
                let dir = scratch.join(format!("{}-w{w}", e.name));
                match run_batch(env, &progs, &dir, e.mode) {
                    Err(m) => {
                        *error.lock().unwrap() = Some(m);
                        stop.store(true, Ordering::SeqCst);
                    }
                    Ok(vs) => {
                        let mut st = stats.lock().unwrap();
                        for ((p, v), c) in progs.iter().zip(vs).zip(choices) {
                            st.evaluations += 1;
                            *st.tags.entry(format!("{}/edition_{}", e.name, env.edition)).or_default() += 1;
                            if p.nontrivial {
                                st.hashes.insert(hash_str(&show(p)));
                                if st.samples.len() < 2 {
                                    st.samples.push(json!({"sub": e.name, "case": clip(&show(p), 1200)}));
                                }
                            }
                            for t in &p.tags {
                                *st.tags.entry(format!("{}/{t}", e.name)).or_default() += 1;
                            }
                            if let Verdict::Fail(m) = v {
                                failed.lock().unwrap().push((c, m, env));
                                if failed.lock().unwrap().len() >= 3 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                }
                let _ = std::fs::remove_dir_all(&dir);
            });
        }
    });
    if let Some(m) = error.into_inner().unwrap() {
        return Err(m);
    }
    let mut stats = stats.into_inner().unwrap();
    stats.per_sub.insert(e.name.into(), stats.evaluations);
    stats.extra.insert(format!("{}_discarded_by_generator", e.name), json!(discarded.load(Ordering::SeqCst)));
    let mut failures = vec![];
    let mut failed = failed.into_inner().unwrap();
    failed.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    if let Some((c, m, env)) = failed.into_iter().next() {
        let (c, m) = shrink_e2e(e, env, c, m, scratch)?;
        let p = try_gen(e, &mut Src::replay(&c)).unwrap();
        failures.push(Failure { sub: e.name.into(), message: m, choices: c, shown: show(&p) });
    }
    Ok(RunResult { stats, failures })
}

/// Verdicts of many candidate choice sequences.
fn decide_many(e: &E2e, env: &RustEnv, cands: &[Vec<u32>], scratch: &Path) -> Result<Vec<Option<(Vec<u32>, Verdict)>>, String> {
    let per = (cands.len() + 7) / 8;
    let out: Mutex<Vec<Option<(Vec<u32>, Verdict)>>> = Mutex::new(vec![None; cands.len()]);
    let error: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for (w, chunk) in cands.chunks(per.max(1)).enumerate() {
            let (out, error) = (&out, &error);
            sc.spawn(move || {
                let mut progs = vec![];
                let mut idx = vec![];
                let mut recs = vec![];
                for (k, c) in chunk.iter().enumerate() {
                    let mut s = Src::replay(c);
                    if let Some(p) = try_gen(e, &mut s) {
                        progs.push(p);
                        idx.push(w * per + k);
                        recs.push(s.rec);
                    }
                }
                if progs.is_empty() {
                    return;
                }
                let dir = scratch.join(format!("{}-s{w}", e.name));
                match run_batch(env, &progs, &dir, e.mode) {
                    Ok(vs) => {
                        let mut o = out.lock().unwrap();
                        for ((i, v), r) in idx.into_iter().zip(vs).zip(recs) {
                            o[i] = Some((r, v));
                        }
                    }
                    Err(m) => *error.lock().unwrap() = Some(m),
                }
                let _ = std::fs::remove_dir_all(&dir);
            });
        }
    });
    if let Some(m) = error.into_inner().unwrap() {
        return Err(m);
    }
    Ok(out.into_inner().unwrap())
}

fn same_kind(a: &str, b: &str) -> bool {
    a.starts_with("does not compile") == b.starts_with("does not compile")
}

fn shrink_e2e(e: &E2e, env: &RustEnv, start: Vec<u32>, msg: String, scratch: &Path) -> Result<(Vec<u32>, String), String> {
    let (mut best, mut message) = (start, msg);
    if message.contains("endless loop") {
        return Ok((best, message));
    }
    let mut wasted = 0;
    let mut offset = 0;
    let begin = std::time::Instant::now();
    for _ in 0..45 {
        if begin.elapsed() > crate::source::SHRINK_TIME {
            break;
        }
        let mut seen = std::collections::HashSet::new();
        let all: Vec<Vec<u32>> = shrink_candidates(&best)
            .into_iter()
            .filter(|c| {
                // only candidates that generate something new and simpler
                let mut s = Src::replay(c);
                match try_gen(e, &mut s) {
                    Some(p) => simpler(&s.rec, &best) && seen.insert(hash_str(&show(&p))),
                    None => false,
                }
            })
            .collect();
        if all.is_empty() {
            break;
        }
        if offset >= all.len() {
            break;
        }
        let cands: Vec<Vec<u32>> = all.iter().skip(offset).take(320).cloned().collect();
        let n = cands.len();
        let vs = decide_many(e, env, &cands, scratch)?;
        let mut improved = false;
        for (rec, v) in vs.into_iter().flatten() {
            if let Verdict::Fail(m) = v {
                if same_kind(&m, &message) && simpler(&rec, &best) {
                    best = rec;
                    message = m;
                    improved = true;
                }
            }
        }
        if improved {
            offset = 0;
            wasted = 0;
        } else {
            offset += n;
            wasted += 1;
            if wasted > 6 {
                break;
            }
        }
    }
    Ok((best, message))
}

/// Re-runs one recorded case. Returns the failure message.
pub fn replay(e: &E2e, choices: &[u32], scratch: &Path) -> Result<Option<String>, String> {
    for env in editions(e)? {
        let v = decide_many(e, &env, &[choices.to_vec()], scratch)?;
        if let Some((_, Verdict::Fail(m))) = v.into_iter().next().flatten() {
            return Ok(Some(m));
        }
    }
    Ok(None)
}

fn editions(e: &E2e) -> Result<Vec<RustEnv>, String> {
    let env = RustEnv::load(e.web)?;
    Ok(EDITIONS.iter().map(|edition| RustEnv { edition, ..env.clone() }).collect())
}
