//! C27: the integrations of web frameworks.
use super::flow::{with_world, World};
use crate::e2e::{E2e, Expect, Mode, Prog, DIR};
use crate::lang::asm::Setup;
use crate::lang::gen::Profile;
use crate::source::Src;
use crate::strings::{any_string, rust_str};

/// Extensions of which the MIME type is beyond doubt.
const EXTS: &[(&str, &str)] = &[
    ("html", "text/html; charset=utf-8"),
    ("htm", "text/html; charset=utf-8"),
    ("html.j2", "text/html; charset=utf-8"),
    ("txt.jinja", "text/plain; charset=utf-8"),
    ("txt", "text/plain; charset=utf-8"),
    ("css", "text/css; charset=utf-8"),
    ("csv.jinja2", "text/csv; charset=utf-8"),
    ("svg", "image/svg+xml"),
    ("json", "application/json"),
    ("xml", "text/xml"),
    ("png", "image/png"),
];

/// What all the ways to answer have to give, and how a failed rendering is shown.
fn answers(value: &str, label: &str, mime: &str, out: &str, failed: bool, run: &mut String, outs: &mut Vec<(String, String)>) {
    let ok = format!("200|{mime}|{out}");
    let expected = |fail: &str| if failed { fail.to_string() } else { ok.clone() };
    run.push_str(&format!("    o.push(::web::respond({value}));\n    o.push(::web::direct(&{value}));\n    o.push(::web::attempt(&{value}));\n"));
    outs.push((format!("response of {label}"), expected("500")));
    outs.push((format!("into_response() of {label}"), expected("500")));
    outs.push((format!("try_into_response() of {label}"), expected("Err")));
}

/// Templates with all features of the language.
fn programs(s: &mut Src) -> Option<Prog> {
    let (ext, mime) = s.of(EXTS);
    let pr = Profile { fails: s.of(&[0, 10, 30]), filters: 40, call: 1, include: 1, block: 2, fuel: 12, ..Default::default() };
    let w = World { chain: 2, blocks: 2, libs: 1, macros: 1, shared: 0, here: 1, inline: !ext.contains('.'), dirs: false, ctx: false };
    let html = s.chance(50);
    let setup = Setup { ext, html, attrs: format!(", escape = {:?}", if html { "html" } else { "none" }), instances: 2, ..Default::default() };
    let mut p = with_world(s, pr, w, setup, false, &[], 0)?;
    let Expect::Outputs(outs) = &mut p.expect else { return None };
    let mut run = String::new();
    let rendered = outs.clone();
    let mut failed = 0;
    for (j, (label, out)) in rendered.iter().enumerate() {
        let f = out.starts_with("Err(");
        failed += f as usize;
        answers(&format!("mk!(T0, {j})"), label, mime, out, f, &mut run, outs);
    }
    p.code = p.code.strip_suffix("}\n")?.to_string() + &run + "}\n";
    p.nontrivial = rendered.iter().any(|o| !o.1.is_empty());
    p.tags = vec![ext];
    if failed > 0 {
        p.tags.push("failure");
        if failed < rendered.len() {
            p.tags.push("failure depends on values");
        }
    }
    Some(p)
}

/// Kinds of structs, bodies of all sizes.
fn shapes(s: &mut Src) -> Option<Prog> {
    let (ext, mime) = s.of(EXTS);
    let text = any_string(s, 12).replace(['{', '}', '\r', '%', '#'], "").trim().to_string();
    let n = match s.weighted(&[60, 30, 10]) {
        0 => s.below(3),
        1 => s.below(300),
        _ => s.below(60000),
    };
    let inline = s.chance(60) && !ext.contains('.');
    // what the source refers to: {v} is displayed
    let fail = s.below(4);
    let check = "{% if bad %}{{ v|fail }}{% endif %}";
    let (before, after) = match fail {
        0 => (check, ""),
        1 => ("", check),
        _ => ("", ""),
    };
    let kind = s.below(6);
    let (decl, name, init, src): (String, &str, fn(usize, bool) -> String, String) = match kind {
        0 => (
            "struct T<'a> { v: &'a str, n: usize, bad: bool }".into(),
            "T",
            |n, bad| format!("T {{ v: \"w\", n: {n}, bad: {bad} }}"),
            format!("{before}{text}{{% for i in 0..n.v() %}}{{{{ v }}}}é{{{{ i }}}};{{% endfor %}}{after}"),
        ),
        1 => (
            "struct Page<'a, 'b: 'a, V: std::fmt::Display + Send> where V: Clone { v: V, r: &'a &'b str, n: usize, bad: bool }".into(),
            "Page",
            |n, bad| format!("Page {{ v: \"w\", r: &\"x\", n: {n}, bad: {bad} }}"),
            format!("{before}{text}{{% for i in 0..n.v() %}}{{{{ v }}}}é{{{{ i }}}};{{% endfor %}}{after}"),
        ),
        2 => (
            "#[derive(Clone)] pub struct List<V, const N: usize> where V: std::fmt::Display + Send { v: V, l: [u8; N], n: usize, bad: bool }".into(),
            "List",
            |n, bad| format!("List {{ v: 'w', l: [1, 2, 3], n: {n}, bad: {bad} }}"),
            format!("{before}{text}{{% for i in 0..n.v() %}}{{{{ v }}}}é{{{{ i }}}};{{% endfor %}}{after}"),
        ),
        3 => (
            "enum Kind { Good(usize), Bad { v: i64, n: usize } }".into(),
            "Kind",
            |n, bad| match bad {
                false => format!("Kind::Good({n})"),
                true => format!("Kind::Bad {{ v: 1, n: {n} }}"),
            },
            format!(
                "{text}{{% match self %}}{{% when Kind::Good(n) %}}{{% for i in 0..n.v() %}}wé{{{{ i }}}};{{% endfor %}}{{% when Kind::Bad {{ v, n }} %}}{{% for i in 0..n.v() %}}wé{{{{ i }}}};{{% endfor %}}{}{{% endmatch %}}",
                if fail < 2 { "{{ v|fail }}" } else { "" }
            ),
        ),
        4 => (
            "struct Tuple(usize, bool);".into(),
            "Tuple",
            |n, bad| format!("Tuple({n}, {bad})"),
            format!("{text}{{% for i in 0..self.0 %}}wé{{{{ i }}}};{{% endfor %}}{}", if fail < 2 { "{% if self.1 %}{{ self.0|fail }}{% endif %}" } else { "" }),
        ),
        _ => (
            "struct Displayed { v: p::Flaky, n: usize, bad: bool }".into(),
            "Displayed",
            |n, bad| format!("Displayed {{ v: p::Flaky({bad}), n: {n}, bad: {bad} }}"),
            format!("{text}{{% for i in 0..n.v() %}}{{{{ v }}}}é{{{{ i }}}};{{% endfor %}}{{{{ v }}}}"),
        ),
    };
    let mut files = vec![];
    let source = match inline {
        true => format!("source = {}, ext = {ext:?}", rust_str(&src)),
        false => {
            files.push((format!("templates/{DIR}/t.{ext}"), src.clone()));
            format!("path = \"{DIR}/t.{ext}\"")
        }
    };
    let escape = s.pick(&["none", "txt"]);
    let mut code = format!(
        "use askama::Template;\nuse crate::p::{{self, filters, V}};\n#[derive(Template)]\n#[template({source}, escape = {escape:?})]\n{decl}\npub fn run(o: &mut Vec<String>) {{\n"
    );
    let mut outs = vec![];
    let mut good = text.clone();
    for i in 0..n {
        good.push_str(&format!("wé{i};"));
    }
    if kind == 5 {
        good.push('w');
    }
    for bad in [false, true] {
        let failed = bad && (fail < 2 || kind == 5);
        answers(&init(n, bad), &format!("{name} ({})", if bad { "bad" } else { "good" }), mime, &good, failed, &mut code, &mut outs);
    }
    code.push_str("}\n");
    let nontrivial = !good.is_empty();
    Some(Prog { files, code, expect: Expect::Outputs(outs), nontrivial, tags: vec![ext, name], deps: vec![] })
}

pub fn e2e() -> Vec<E2e> {
    let mut v = vec![];
    for (web, a, b) in [("axum", "axum", "axum-shapes"), ("actix", "actix", "actix-shapes"), ("rocket", "rocket", "rocket-shapes"), ("warp", "warp", "warp-shapes")] {
        v.push(E2e { name: a, quick: 400, batch: 25, gen: programs, mode: Mode::Plain, web: Some(web) });
        v.push(E2e { name: b, quick: 400, batch: 25, gen: shapes, mode: Mode::Plain, web: Some(web) });
    }
    v
}
