//! C28: the same input always gives the same code, and `print` shows this code.
use super::flow::{ext, with_world, World};
use super::reject::two_defects;
use crate::e2e::{E2e, Expect, Mode, Prog, DIR};
use crate::lang::asm::Setup;
use crate::lang::gen::Profile;
use crate::source::Src;

fn setup(s: &mut Src, instances: usize) -> Setup {
    let (ext, html) = ext(s);
    Setup { ext, html, instances, attrs: ", print = \"code\"".into(), ..Default::default() }
}

fn worlds(s: &mut Src) -> Option<Prog> {
    let pr = Profile { fuel: 8, call: 4, include: 3, block: 3, filters: 15, raw: 0, comment: 0, ..Default::default() };
    let w = World { chain: 3, blocks: 3, libs: 3, macros: 2, shared: 2, here: 3, inline: true, dirs: true, ctx: true };
    let setup = setup(s, 0);
    let mut p = with_world(s, pr, w, setup, true, &[], 0)?;
    p.nontrivial = p.files.len() > 1;
    Some(p)
}

fn printed(s: &mut Src) -> Option<Prog> {
    let pr = Profile { fuel: 10, call: 3, include: 2, block: 2, filters: 20, raw: 1, comment: 0, ..Default::default() };
    let w = World { chain: 2, blocks: 2, libs: 1, macros: 2, shared: 1, here: 1, inline: true, dirs: true, ctx: false };
    let setup = setup(s, 2);
    with_world(s, pr, w, setup, false, &["expr", "text", "call", "include", "block", "filter", "if_first", "for_many"], 2)
}

fn errors(s: &mut Src) -> Option<Prog> {
    two_defects(s)
}

/// Some of `from` without repetition.
fn some<T: Clone>(s: &mut Src, from: &[T], least: usize, most: usize) -> Vec<T> {
    let mut rest = from.to_vec();
    let n = least + s.below(most + 1 - least);
    (0..n.min(from.len())).map(|_| rest.remove(s.below(rest.len()))).collect()
}

/// Several mistakes of the same kind in one place: which one is reported must not depend on chance.
fn alike(s: &mut Src) -> Option<Prog> {
    const NAMES: &[&str] = &["aa", "bb", "cc", "dd", "ee", "ff"];
    let mut attrs = format!("path = \"{DIR}/a.html\"");
    let mut main = String::from("{{ s }}");
    let mut toml: Option<String> = None;
    let mut files = vec![];
    let names = some(s, NAMES, 2, 6);
    let what = s.below(12);
    let tag = match what {
        0 => {
            let all = ["nope = \"x\"", "bad = \"y\"", "wrong = 1", "escape = \"nope\"", "syntax = \"nope\"", "whitespace = \"nope\"", "print = \"nope\"", "block = \"zz\"", "config = \"nope.toml\""];
            for a in some(s, &all, 2, 4) {
                attrs.push_str(&format!(", {a}"));
            }
            "attributes"
        }
        1 => {
            // syntaxes: unknown default, repeated names, invalid delimiters
            let mut t = String::new();
            if s.chance(40) {
                t.push_str("[general]\ndefault_syntax = \"zz\"\n");
            }
            for n in &names {
                let bad = ["block_start = \"<\"", "block_end = \"\"", "expr_start = \"a b\"", "comment_start = \"{%\"", "comment_start = \"{{\"", "block_start = \"{#\"", "expr_end = \"==\""];
                t.push_str(&format!("[[syntax]]\nname = \"{n}\"\n{}\n", some(s, &bad, 1, 2).iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n")));
            }
            // keys must not be repeated within a table
            let mut seen: Vec<&str> = vec![];
            for l in t.lines() {
                let k = l.split(' ').next().unwrap();
                if k == "[[syntax]]" {
                    seen.clear();
                } else if seen.contains(&k) {
                    return None;
                } else {
                    seen.push(k);
                }
            }
            toml = Some(t);
            "syntaxes"
        }
        2 => {
            let mut t = String::new();
            for n in &names {
                for _ in 0..2 {
                    t.push_str(&format!("[[syntax]]\nname = \"{n}\"\n"));
                }
            }
            toml = Some(t);
            "syntaxes"
        }
        3 => {
            let args: Vec<String> = names.iter().map(|n| format!("{n} = i")).collect();
            let params = some(s, &["xx", "yy", "zz", "ww", "vv", "uu"], names.len(), names.len());
            main = format!("{{% macro m({}) %}}{{% endmacro %}}{{% call m({}) %}}", params.join(", "), args.join(", "));
            "arguments"
        }
        4 => {
            let mut args: Vec<String> = names.iter().chain(&names).map(|n| format!("{n} = i")).collect();
            for k in 1..args.len() {
                let j = s.below(k + 1);
                args.swap(k, j);
            }
            main = format!("{{% macro m({}) %}}{{% endmacro %}}{{% call m({}) %}}", names.join(", "), args.join(", "));
            "arguments"
        }
        5 => {
            // positional arguments for parameters that are also named
            let k = 1 + s.below(names.len() - 1);
            let args: Vec<String> = (0..names.len() - k).map(|_| "i".to_string()).chain(names[..k].iter().map(|n| format!("{n} = i"))).collect();
            main = format!("{{% macro m({}) %}}{{% endmacro %}}{{% call m({}) %}}", names.join(", "), args.join(", "));
            "arguments"
        }
        6 => {
            let f = s.of(&["{% include \"@.html\" %}", "{% import \"@.html\" as x %}", "{% call @() %}", "{% call @::m() %}", "{% if b %}{% macro @() %}{% endmacro %}{% endif %}", "{% block @ %}{% endblock %}{% block @ %}{% endblock %}"]);
            main = names.iter().map(|n| f.replace('@', n)).collect();
            "tags"
        }
        7 => {
            // nested blocks again
            for n in &names {
                main = format!("{{% block {n} %}}{main}{{% endblock %}}");
            }
            main = format!("{main}{main}");
            "tags"
        }
        8 => {
            // files with a mistake each
            let f = s.of(&["{% include \"@.html\" %}", "{% import \"@.html\" as x@ %}"]);
            main = names.iter().map(|n| f.replace('@', n)).collect();
            for n in &names {
                let bad = s.of(&["{% if %}", "{{ }}", "{% include \"none.html\" %}", "{% extends \"none.html\" %}", "{% block q %}{% endblock %}{% block q %}{% endblock %}", "{% include \"a.html\" %}", "{% for x in self.xs %}"]);
                files.push((format!("templates/{DIR}/{n}.html"), format!("{n}{bad}")));
            }
            "files"
        }
        9 => {
            // several cycles
            main = names.iter().map(|n| format!("{{% include \"{n}.html\" %}}")).collect();
            for (k, n) in names.iter().enumerate() {
                let to = [names[(k + 1) % names.len()], *n, "a"][s.below(3)];
                let how = s.of(&["{% extends \"@.html\" %}", "{% include \"@.html\" %}"]);
                files.push((format!("templates/{DIR}/{n}.html"), how.replace('@', to)));
            }
            "files"
        }
        10 => {
            // several blocks of the fragment, macros that call themselves
            for n in &names {
                main.push_str(&format!("{{% macro {n}() %}}{{% call {}() %}}{{% endmacro %}}", s.of(&names)));
            }
            main.push_str(&names.iter().map(|n| format!("{{% call {n}() %}}")).collect::<String>());
            "recursive"
        }
        _ => {
            // no file can be found in several directories
            let dirs: Vec<String> = names.iter().map(|n| format!("\"{DIR}.{n}\"")).collect();
            toml = Some(format!("[general]\ndirs = [{}]\n", dirs.join(", ")));
            "dirs"
        }
    };
    files.push((format!("templates/{DIR}/a.html"), main));
    if let Some(t) = toml {
        attrs.push_str(&format!(", config = \"{DIR}.toml\""));
        files.push((format!("{DIR}.toml"), t));
    }
    let code = format!(
        "use askama::Template;\n#[derive(Template)]\n#[template({attrs})]\nstruct T {{ b: bool, i: i64, s: &'static str, xs: Vec<i64> }}\npub fn run(_: &mut Vec<String>) {{}}\n"
    );
    Some(Prog { files, code, expect: Expect::Outputs(vec![]), nontrivial: true, tags: vec![tag], deps: vec![] })
}

pub fn e2e() -> Vec<E2e> {
    vec![
        E2e { name: "worlds", quick: 800, batch: 20, gen: worlds, mode: Mode::Twice, web: None },
        E2e { name: "errors", quick: 1600, batch: 40, gen: errors, mode: Mode::Twice, web: None },
        E2e { name: "alike", quick: 1200, batch: 40, gen: alike, mode: Mode::Twice, web: None },
        E2e { name: "printed", quick: 240, batch: 10, gen: printed, mode: Mode::Printed, web: None },
    ]
}
