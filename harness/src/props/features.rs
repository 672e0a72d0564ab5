//! C29: features of the crate only add what they are about.
use super::flow::{ext, with_world, World};
use crate::e2e::{E2e, Expect, Mode, Prog, DIR};
use crate::lang::asm::Setup;
use crate::lang::gen::Profile;
use crate::source::Src;

/// The feature sets; `check.sh` builds the crate with each of them.
const SETS: &[&[&str]] = &[
    &[],
    &["config"],
    &["humansize"],
    &["num-traits"],
    &["urlencode"],
    &["serde-json"],
    &["serde_json"],
    &["config", "urlencode", "num-traits", "serde_json"],
];

/// Filters that need a feature: expression, result, feature.
const GATED: &[(&str, &str, &str)] = &[
    ("\"a b&/\"|urlencode", "a%20b%26/", "urlencode"),
    ("\"a b&/\"|urlencode_strict", "a%20b%26%2F", "urlencode"),
    ("s|urlencode|upper", "%3C", "urlencode"),
    ("i|filesizeformat", "7 B", "humansize"),
    ("-5|abs", "5", "num-traits"),
    ("2.5|into_isize", "2", "num-traits"),
    ("7|into_f64", "7", "num-traits"),
    ("i.clone()|abs", "7", "num-traits"),
    ("\"x\"|json", "\"x\"", "json"),
    ("\"x\"|tojson", "\"x\"", "json"),
    ("[1, 2]|json|wrap", "[[\n  1,\n  2\n]]", "json"),
    ("s|json|safe", "\"\\u003c\"", "json"),
];

/// Where they are used.
const PLACES: &[&str] = &[
    "{{ @ }}",
    "{% if i == 7 %}{{ @ }}{% endif %}",
    "{% for x in 0..1 %}{{ @ }}{% endfor %}",
    "{% match i %}{% when 7 %}{{ @ }}{% when _ %}{% endmatch %}",
    "{% macro m() %}{{ @ }}{% endmacro %}{% call m() %}",
    "{% block q %}{{ @ }}{% endblock %}",
    "{% filter lower|wrap %}{% endfilter %}{{ @ }}",
    "{% let y = (@)|fmt(\"{}\") %}{{ y }}",
    "{% include \"inc.txt\" %}",
];

fn has(set: &[&str], f: &str) -> bool {
    set.iter().any(|x| *x == f || (f == "json" && matches!(*x, "serde-json" | "serde_json")))
}

fn program<const K: usize>(s: &mut Src) -> Option<Prog> {
    let set = SETS[K];
    match s.weighted(&[60, 30, 12]) {
        0 => world(s, set),
        1 => gated(s, set),
        _ => config(s, set),
    }
}

/// Templates that need no feature.
fn world(s: &mut Src, set: &[&str]) -> Option<Prog> {
    // what is not there must not be used; the lists are cumulative only where features are
    let mut without: Vec<&'static str> = vec![];
    for (f, names) in [("urlencode", &["urlencode", "urlencode_strict"][..]), ("num-traits", &["abs"][..]), ("json", &["json", "tojson"][..])] {
        if !has(set, f) {
            without.extend(names);
        }
    }
    let pr = Profile {
        without: without.leak(), filters: 40, call: 2, include: 2, block: 2, raw: 1, fuel: 12, ..Default::default()
    };
    let w = World { chain: 2, blocks: 2, libs: 1, macros: 1, shared: 0, here: 2, inline: true, dirs: true, ctx: false };
    let (ext, html) = ext(s);
    let mut setup = Setup { ext, html, instances: 2, ..Default::default() };
    let ws = s.of(&[0, 0, b'-', b'~', b'+']);
    let name = |c: u8| match c {
        b'-' => "suppress",
        b'~' => "minimize",
        _ => "preserve",
    };
    if ws != 0 {
        setup.default_ws = ws;
        match has(set, "config") && s.chance(60) {
            true => setup.config = Some(format!("[general]\nwhitespace = {:?}\n", name(ws))),
            false => setup.attrs = format!(", whitespace = {:?}", name(ws)),
        }
    }
    let mut p = with_world(s, pr, w, setup, false, &["filter", "expr", "call", "include", "block", "text"], 2)?;
    p.tags = vec!["needs_nothing"];
    Some(p)
}

fn small(attrs: &str, files: Vec<(String, String)>, out: Option<String>, tag: &'static str) -> Prog {
    let code = format!(
        "use askama::Template;\nuse crate::p::{{self, filters}};\n#[derive(Template)]\n#[template({attrs})]\nstruct T {{ i: i64, s: &'static str }}\npub fn run(o: &mut Vec<String>) {{ o.push(p::render(&T {{ i: 7, s: \"<\" }})) }}\n"
    );
    let expect = match out {
        Some(o) => Expect::Outputs(vec![("T".into(), o)]),
        None => Expect::CompileError,
    };
    Prog { files, code, expect, nontrivial: true, tags: vec![tag], deps: vec![] }
}

fn gated(s: &mut Src, set: &[&str]) -> Option<Prog> {
    let (e, out, feature) = s.of(GATED);
    let place = s.pick(PLACES);
    let there = has(set, feature);
    let mut files = vec![(format!("templates/{DIR}/inc.txt"), format!("{{{{ {e} }}}}"))];
    let mut t = place.replace('@', e);
    let mut out = out.to_string();
    if t.contains("endfilter") {
        out = format!("[]{out}");
    }
    if s.chance(40) {
        t = format!("a{t}");
        out = format!("a{out}");
    }
    files.push((format!("templates/{DIR}/a.txt"), t));
    Some(small(&format!("path = \"{DIR}/a.txt\""), files, there.then_some(out), if there { "feature_on" } else { "feature_off" }))
}

fn config(s: &mut Src, set: &[&str]) -> Option<Prog> {
    let (toml, needs) = s.of(&[
        ("", false),
        ("[general]\ndirs = [\"templates\"]\n", true),
        ("[general]\nwhitespace = \"suppress\"\n", true),
        ("[general]\ndefault_syntax = \"default\"\n", true),
        ("[[syntax]]\nname = \"a\"\nblock_start = \"<%\"\n", true),
        ("[[escaper]]\npath = \"::askama::Text\"\nextensions = [\"js\"]\n", true),
    ]);
    let ok = !needs || has(set, "config");
    let files = vec![(format!("{DIR}.toml"), toml.to_string()), (format!("templates/{DIR}/a.html"), "{{ s }} {{ i }}".to_string())];
    let out = match toml.contains("suppress") {
        true => "&lt;7",
        false => "&lt; 7",
    };
    Some(small(
        &format!("path = \"{DIR}/a.html\", config = \"{DIR}.toml\""),
        files,
        ok.then(|| out.to_string()),
        if ok { "config" } else { "config_off" },
    ))
}

pub fn e2e() -> Vec<E2e> {
    let one = |name, gen| E2e { name, quick: 240, batch: 40, gen, mode: Mode::Plain, web: Some(name) };
    vec![
        one("f0", program::<0>),
        one("f1", program::<1>),
        one("f2", program::<2>),
        one("f3", program::<3>),
        one("f4", program::<4>),
        one("f5", program::<5>),
        one("f6", program::<6>),
        one("f7", program::<7>),
    ]
}
