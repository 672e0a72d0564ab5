//! Turns a project into a program and its expected output.
use super::gen::{instance, rust_type, rust_value, FIELDS};
use super::interp::Interp;
use super::{print, Delims, Project, Wc};
use crate::e2e::{Expect, Prog, DIR};
use crate::source::Src;
use std::collections::BTreeMap;

/// A derived struct.
pub struct Entry {
    pub file: usize,
    pub block: Option<String>,
    /// the file that defines the block, if this is not the same one
    pub of: Option<usize>,
}

pub struct Setup {
    pub entries: Vec<Entry>,
    pub ext: &'static str,
    pub html: bool,
    /// further attributes of the entries, e.g. `escape = "none"`
    pub attrs: String,
    /// the whitespace control that tags without one have
    pub default_ws: Wc,
    pub delims: Delims,
    pub config: Option<String>,
    pub instances: usize,
    /// record the effects, too
    pub log: bool,
    /// render with every entry point
    pub entries_agree: bool,
    /// directory of the templates
    pub root: &'static str,
}

impl Default for Setup {
    fn default() -> Self {
        Setup {
            entries: vec![Entry { file: 0, block: None, of: None }],
            ext: "html",
            html: true,
            attrs: String::new(),
            default_ws: 0,
            delims: Delims::default(),
            config: None,
            instances: 3,
            log: false,
            entries_agree: false,
            root: "templates",
        }
    }
}

pub struct Built {
    pub prog: Prog,
    /// what was executed in all instances together
    pub seen: BTreeMap<&'static str, usize>,
    /// number of different outputs
    pub outputs: usize,
}

/// The struct definitions shared by all generated templates.
fn fields_decl() -> String {
    FIELDS.iter().map(|(n, t)| format!("{n}: {}", rust_type(*t))).collect::<Vec<_>>().join(", ")
}

pub fn build(s: &mut Src, p: &mut Project, setup: &Setup) -> Option<Built> {
    let n = p.files.len();
    let mut sources = vec![];
    print::too_deep();
    for i in 0..n {
        sources.push(print::file(p, i, &setup.delims, setup.default_ws));
    }
    if print::too_deep() {
        return None;
    }
    let seeds: Vec<usize> = (0..setup.instances).map(|k| if k == 0 { s.below(400) } else { 1 + s.below(4000) }).collect();
    let mut code = String::from("use askama::Template;\nuse crate::p::{self, filters, E, P, V};\n");
    let mut files = vec![];
    for (f, src) in p.files.iter().zip(&sources) {
        if !f.path.is_empty() {
            files.push((format!("{}/{}", setup.root, f.path), src.clone()));
        }
    }
    if let Some(c) = &setup.config {
        files.push((format!("{DIR}.toml"), c.clone()));
    }
    let mut seen = BTreeMap::new();
    let mut outputs = vec![];
    let mut run = String::new();
    let mut values = String::from("macro_rules! mk {\n");
    let instances: Vec<BTreeMap<String, super::Val>> = seeds.iter().map(|k| instance(*k)).collect();
    for (k, inst) in instances.iter().enumerate() {
        let v: Vec<String> = FIELDS.iter().map(|(n, t)| format!("{n}: {}", rust_value(&inst[*n], *t))).collect();
        values.push_str(&format!("    ($t:ident, {k}) => {{ $t {{ {} }} }};\n", v.join(", ")));
    }
    values.push_str("}\n");
    if instances.is_empty() {
        // a macro without rules is an error
        values.clear();
    }
    for (k, e) in setup.entries.iter().enumerate() {
        let f = &p.files[e.file];
        let mut attrs = match f.path.is_empty() {
            true => format!("source = {}, ext = {:?}", crate::strings::rust_str(&sources[e.file]), setup.ext),
            false => format!("path = {:?}", f.path),
        };
        if let Some(b) = &e.block {
            attrs.push_str(&format!(", block = {b:?}"));
        }
        attrs.push_str(&setup.attrs);
        if setup.config.is_some() {
            attrs.push_str(&format!(", config = \"{DIR}.toml\""));
        }
        code.push_str(&format!("#[derive(Template)]\n#[template({attrs})]\nstruct T{k} {{ {} }}\n", fields_decl()));
        code.push_str(&format!("impl T{k} {{ fn dbl(&self, x: impl p::AsI) -> i64 {{ 2 * x.i() + self.i }} }}\n"));
        for (j, inst) in instances.iter().enumerate() {
            let mut it = Interp::new(p, inst, setup.html);
            let out = it.render(e.of.unwrap_or(e.file), e.block.as_deref()).ok()?;
            for (what, c) in &it.seen {
                *seen.entry(*what).or_default() += c;
            }
            let block = e.block.as_ref().map(|b| format!(" block {b}")).unwrap_or_default();
            let label = format!("T{k}{block} with instance {j}");
            let how = if setup.entries_agree { "entries(" } else { "render(&" };
            run.push_str(&format!("    o.push(p::{how}mk!(T{k}, {j})));\n"));
            outputs.push((label.clone(), out));
            if setup.log {
                run.push_str("    o.push(p::take_log());\n");
                let f = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                let mut c = it.clog.clone();
                c.sort();
                outputs.push((format!("effects of {label}"), format!("{}|{}", f(&it.log), f(&c))));
            }
        }
    }
    if setup.entries_agree && s.chance(50) {
        // the template as a value of another one
        let safe = s.pick(&["{{ inner|safe }}", "{{ inner.render()?|safe }}", "{{ self.inner|safe }}", "{% let y = inner.render()? %}{{ y|safe }}", "{% filter wrap|safe %}{{ inner|safe }}{% endfilter %}"]);
        let shown = s.pick(&["{{ inner }}", "{{ inner|e }}", "{{ inner|escape }}", "{{ inner.render()? }}"]);
        let list = "{% for x in list %}{{ loop.index }}{{ x|safe }}{% endfor %}";
        code.push_str(&format!(
            "#[derive(Template)]\n#[template(source = {:?}, ext = \"html\")]\nstruct Outer<X: Template> {{ inner: X, list: Vec<Box<dyn askama::DynTemplate>> }}\n",
            format!("a{shown}b{safe}c{list}")
        ));
        let rendered: Vec<(usize, usize, String)> = (0..setup.entries.len())
            .flat_map(|k| (0..instances.len()).map(move |j| (k, j)))
            .zip(outputs.iter().filter(|o| !o.0.starts_with("effects")))
            .map(|((k, j), o)| (k, j, o.1.clone()))
            .collect();
        for _ in 0..2.min(rendered.len()) {
            let (k, j, out) = rendered[s.below(rendered.len())].clone();
            let list: Vec<(usize, usize, String)> = (0..s.below(3)).map(|_| rendered[s.below(rendered.len())].clone()).collect();
            let boxes: Vec<String> = list.iter().map(|(k, j, _)| format!("Box::new(mk!(T{k}, {j}))")).collect();
            run.push_str(&format!("    o.push(p::outcome(p::entries(Outer {{ inner: mk!(T{k}, {j}), list: vec![{}] }})));\n", boxes.join(", ")));
            let failed = out.starts_with("Err(") || list.iter().any(|x| x.2.starts_with("Err("));
            let expected = match failed {
                true => "Err".to_string(),
                false => {
                    let safe = if safe.contains("wrap") { format!("[{out}]") } else { out.clone() };
                    let list: String = list.iter().enumerate().map(|(n, x)| format!("{}{}", n + 1, x.2)).collect();
                    format!("a{}b{safe}c{list}", askama_escape::escape(&out, askama_escape::Html))
                }
            };
            outputs.push((format!("T{k} with instance {j} in another template"), expected));
        }
        *seen.entry("nested").or_default() += 1;
    }
    code.push_str(&values);
    code.push_str(&format!("pub fn run(o: &mut Vec<String>) {{\n{run}}}\n"));
    let mut distinct: Vec<&String> = outputs.iter().map(|o| &o.1).collect();
    distinct.sort();
    distinct.dedup();
    let n = distinct.len();
    let tags = seen.keys().copied().collect();
    Some(Built { prog: Prog { files, code, expect: Expect::Outputs(outputs), nontrivial: false, tags, deps: vec![] }, seen, outputs: n })
}

/// Marks a program as non-trivial if enough of `need` was executed.
pub fn finish(b: Built, need: &[&str], least: usize) -> Prog {
    let mut p = b.prog;
    p.nontrivial = b.outputs > 0 && need.iter().filter(|n| b.seen.contains_key(**n)).count() >= least;
    p
}
