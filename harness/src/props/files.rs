//! Properties of files, extensions, configurations and dependencies.
use super::flow::{world, World};
use super::parser::Syn;
use super::reject::reachable;
use crate::e2e::{E2e, Expect, Mode, Prog, DIR};
use crate::lang::asm::{build, finish, Entry, Setup};
use crate::lang::gen::{Gen, Profile};
use crate::source::Src;
use crate::strings::rust_str;
use std::collections::BTreeMap;

// ---- C03 ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum Escaper {
    Html,
    Text,
    Star,
    Bang,
}

fn escaped(e: Escaper, s: &str) -> String {
    match e {
        Escaper::Html => s.chars().map(|c| match c {
            '&' => "&amp;".to_string(),
            '<' => "&lt;".to_string(),
            '>' => "&gt;".to_string(),
            '"' => "&quot;".to_string(),
            '\'' => "&#x27;".to_string(),
            c => c.to_string(),
        }).collect(),
        Escaper::Text => s.to_string(),
        Escaper::Star => s.replace('<', "*"),
        Escaper::Bang => s.replace('&', "!"),
    }
}

/// The escaper of an extension or mode.
fn escaper_of(ext: &str, config: &[(Escaper, Vec<String>)]) -> Option<Escaper> {
    if let Some((e, _)) = config.iter().find(|(_, v)| v.iter().any(|x| x == ext)) {
        return Some(*e);
    }
    match ext {
        "html" | "htm" | "svg" | "xml" | "j2" | "jinja" | "jinja2" => Some(Escaper::Html),
        "md" | "none" | "txt" | "typ" | "yml" | "" => Some(Escaper::Text),
        _ => None,
    }
}

/// The extension of a file name and the name without it.
fn split_ext(name: &str) -> (&str, Option<&str>) {
    match name.rfind('.') {
        None | Some(0) => (name, None),
        Some(i) => (&name[..i], Some(&name[i + 1..])),
    }
}

/// The extension that names the format.
fn format_ext(name: &str) -> Option<&str> {
    let (stem, ext) = split_ext(name);
    match ext {
        Some("j2" | "jinja" | "jinja2") => split_ext(stem).1.or(ext),
        e => e,
    }
}

/// The MIME types of formats about which there is no doubt.
fn mime_of(ext: &str) -> Option<&'static str> {
    Some(match ext {
        "html" | "htm" => "text/html; charset=utf-8",
        "txt" => "text/plain; charset=utf-8",
        "css" => "text/css; charset=utf-8",
        "csv" => "text/csv; charset=utf-8",
        "svg" => "image/svg+xml",
        "json" => "application/json",
        "xml" => "text/xml",
        "png" => "image/png",
        _ => return None,
    })
}

const EXTS: &[&str] = &[
    "html", "txt", "htm", "svg", "xml", "md", "none", "typ", "yml", "j2", "jinja", "jinja2", "css", "csv", "json", "png", "tex", "rs", "HTML", "Txt", "x-y",
    "html5", "jinja3", "", "é",
];

const NASTY: &str = "a<b>&\"c'd*!";

fn c03(s: &mut Src) -> Option<Prog> {
    let known = |s: &mut Src| match s.chance(70) {
        true => s.pick(&EXTS[..12]).to_string(),
        false => s.pick(EXTS).to_string(),
    };
    let mut config = vec![];
    let mut toml = String::new();
    if s.chance(60) {
        for _ in 0..1 + s.below(2) {
            let e = s.of(&[Escaper::Star, Escaper::Bang, Escaper::Text, Escaper::Html]);
            let n = 1 + s.below(3);
            let exts: Vec<String> = (0..n).map(|_| s.pick(EXTS).to_string()).collect();
            let path = match e {
                Escaper::Star => "crate::p::Star",
                Escaper::Bang => "crate::p::Bang",
                Escaper::Html => "::askama::Html",
                Escaper::Text => "askama::Text",
            };
            toml.push_str(&format!("[[escaper]]\npath = {path:?}\nextensions = {exts:?}\n"));
            config.push((e, exts));
        }
    }
    let mut files = vec![];
    let mut code = String::from("use askama::Template;\n");
    let mut run = String::new();
    let mut out = vec![];
    let mut tags = vec![];
    let mut reject = s.chance(20);
    let n = if reject { 1 } else { 1 + s.below(4) };
    if !toml.is_empty() {
        files.push((format!("{DIR}.toml"), toml.clone()));
    }
    // what is included does not change the escaper
    let inc_ext = known(s);
    let inc = format!("{DIR}/inc.{inc_ext}");
    files.push((format!("templates/{inc}"), "{{ s }}".to_string()));
    for k in 0..n {
        let mut src = String::from("{{ s }} {{ s|safe }} {{ s|e }} {{ s|e|safe }}");
        let mode = match s.chance(50) {
            true => Some(known(s)),
            false => None,
        };
        let mode_esc = mode.as_deref().map(|m| escaper_of(m, &config));
        let include = s.chance(40);
        let inline = s.chance(40);
        let (file, attrs) = match inline {
            true => {
                let outer = known(s);
                let ext = match s.chance(20) {
                    true => format!("{}.{outer}", known(s)),
                    false => outer,
                };
                (format!("T{k}.{ext}"), format!("ext = {ext:?}"))
            }
            false => {
                let mut name = s.pick(&["a", "a.b", "", ".", ".a", "a b", "é", "html", "A.j2"]).to_string();
                if s.chance(35) {
                    name.push_str(&format!(".{}", known(s)));
                }
                if s.chance(85) || name.is_empty() || name == "." {
                    name.push_str(&format!(".{}", known(s)));
                }
                if name.trim_matches('.').is_empty() {
                    return None;
                }
                let dir = s.pick(&["", "d/", "d.html/", "x.txt/y.j2/", "e.none/"]);
                let path = format!("{DIR}/{k}/{dir}{name}");
                (name, format!("path = {path:?}"))
            }
        };
        let esc_attr = match s.chance(30) {
            true => Some(known(s)),
            false => None,
        };
        let by = esc_attr.clone().unwrap_or_else(|| split_ext(&file).1.unwrap_or("").to_string());
        let escaper = escaper_of(&by, &config);
        if escaper.is_none() && !reject {
            return None;
        }
        let mut want = String::new();
        let e = escaper.unwrap_or(Escaper::Text);
        want.push_str(&format!("{0} {1} {0} {0}", escaped(e, NASTY), NASTY));
        if let (Some(m), Some(me)) = (&mode, mode_esc) {
            src.push_str(&format!(" {{{{ s|escape({m:?}) }}}}"));
            match me {
                Some(me) => want.push_str(&format!(" {}", escaped(me, NASTY))),
                None if reject => {}
                None => return None,
            }
        }
        if include {
            src.push_str(&format!(" {{% include {inc:?} %}}"));
            want.push_str(&format!(" {}", escaped(e, NASTY)));
        }
        // everything is fine after all
        if reject && escaper.is_some() && mode_esc.map_or(true, |x| x.is_some()) {
            reject = false;
        }
        let mut attrs = match inline {
            true => format!("source = {}, {attrs}", rust_str(&src)),
            false => {
                let path = attrs.strip_prefix("path = \"").unwrap().strip_suffix('"').unwrap();
                files.push((format!("templates/{path}"), src));
                attrs
            }
        };
        if let Some(e) = &esc_attr {
            attrs.push_str(&format!(", escape = {e:?}"));
            tags.push("escape_attribute");
        }
        if !toml.is_empty() {
            attrs.push_str(&format!(", config = \"{DIR}.toml\""));
        }
        code.push_str(&format!("#[derive(Template)]\n#[template({attrs})]\nstruct T{k} {{ s: &'static str }}\n"));
        run.push_str(&format!("    o.push(p::render(&T{k} {{ s: {} }}));\n", rust_str(NASTY)));
        out.push((format!("T{k} ({file})"), want));
        let ext = match inline {
            // the attribute as it is written
            true => Some(file.split_once('.').unwrap().1),
            false => format_ext(&file),
        };
        run.push_str(&format!("    o.push(format!(\"{{:?}}\", T{k}::EXTENSION));\n"));
        out.push((format!("EXTENSION of {file}"), format!("{ext:?}")));
        let mime = match ext {
            None => Some("text/plain; charset=utf-8"),
            Some(e) => mime_of(e),
        };
        if let Some(m) = mime {
            run.push_str(&format!("    o.push(T{k}::MIME_TYPE.to_string());\n"));
            out.push((format!("MIME_TYPE of {file}"), m.to_string()));
            tags.push("mime");
        }
        tags.push(match e {
            Escaper::Html => "html",
            Escaper::Text => "text",
            _ => "configured",
        });
    }
    code.push_str(&format!("use crate::p;\npub fn run(o: &mut Vec<String>) {{\n{run}}}\n"));
    tags.sort();
    tags.dedup();
    if reject {
        tags = vec!["no_escaper"];
    }
    let expect = match reject {
        true => Expect::CompileError,
        false => Expect::Outputs(out),
    };
    Some(Prog { files, code, expect, nontrivial: true, tags, deps: vec![] })
}

// ---- C24 ----

enum It {
    Text(String),
    Include(String),
    /// call of the macro of an imported file
    Call(usize),
    Block(Vec<It>),
}

struct Src1 {
    extends: Option<String>,
    imports: Vec<String>,
    mac: Vec<It>,
    items: Vec<It>,
}

struct Layout {
    /// searched directories
    dirs: Vec<String>,
    /// all files by path relative to the manifest directory
    files: BTreeMap<String, Src1>,
}

fn dir_of(path: &str) -> &str {
    path.rsplit_once('/').map(|x| x.0).unwrap_or("")
}

impl Layout {
    /// `at`: the file that names the other one, if it is one.
    fn find(&self, name: &str, at: Option<&str>) -> Option<String> {
        if let Some(at) = at {
            let p = format!("{}/{name}", dir_of(at));
            if self.files.contains_key(&p) {
                return Some(p);
            }
        }
        self.dirs.iter().map(|d| format!("{d}/{name}")).find(|p| self.files.contains_key(p))
    }
}

enum Stop {
    Missing,
    Discard,
}

struct Eval<'a> {
    l: &'a Layout,
    leaf: &'a str,
    inline: bool,
    out: String,
    steps: usize,
}

impl Eval<'_> {
    fn at<'b>(&self, f: &'b str) -> Option<&'b str> {
        match self.inline && f == self.leaf {
            true => None,
            false => Some(f),
        }
    }
    fn chain(&self, f: &str) -> Result<Vec<String>, Stop> {
        let mut v = vec![f.to_string()];
        while let Some(e) = &self.l.files[v.last().unwrap()].extends {
            let p = self.l.find(e, self.at(v.last().unwrap())).ok_or(Stop::Missing)?;
            if v.contains(&p) {
                return Err(Stop::Discard);
            }
            v.push(p);
        }
        Ok(v)
    }
    fn file(&mut self, f: &str, stack: &[String]) -> Result<(), Stop> {
        if stack.iter().any(|x| x == f) || stack.len() > 6 {
            return Err(Stop::Discard);
        }
        let chain = self.chain(f)?;
        // the imports of all of these files are read
        for c in &chain {
            for i in &self.l.files[c].imports {
                self.l.find(i, self.at(c)).ok_or(Stop::Missing)?;
            }
        }
        let stack = [stack, &[f.to_string()]].concat();
        let base = chain.last().unwrap().clone();
        let l = self.l;
        self.items(&l.files[&base].items, &base, &chain, &stack)
    }
    fn items(&mut self, items: &[It], at: &str, chain: &[String], stack: &[String]) -> Result<(), Stop> {
        let l = self.l;
        for i in items {
            self.steps += 1;
            if self.steps > 60 {
                return Err(Stop::Discard);
            }
            match i {
                It::Text(t) => self.out.push_str(t),
                It::Include(n) => {
                    let f = l.find(n, self.at(at)).ok_or(Stop::Missing)?;
                    self.file(&f, stack)?;
                }
                It::Call(k) => {
                    let lib = l.find(&l.files[at].imports[*k], self.at(at)).ok_or(Stop::Missing)?;
                    if stack.len() > 6 {
                        return Err(Stop::Discard);
                    }
                    let stack = [stack, &[lib.clone()]].concat();
                    self.items(&l.files[&lib].mac, &lib, &[lib.clone()], &stack)?;
                }
                It::Block(_) => {
                    let own = chain.iter().find_map(|f| l.files[f].items.iter().find_map(|i| match i {
                        It::Block(b) => Some((f, b)),
                        _ => None,
                    }));
                    let (f, b) = own.unwrap();
                    self.items(b, f, chain, stack)?;
                }
            }
        }
        Ok(())
    }
}

fn print_items(items: &[It], d: &[String; 6], out: &mut String) {
    for i in items {
        match i {
            It::Text(t) => out.push_str(t),
            It::Include(n) => out.push_str(&format!("{} include {n:?} {}", d[0], d[1])),
            It::Call(k) => out.push_str(&format!("{} call l{k}::m() {}", d[0], d[1])),
            It::Block(b) => {
                out.push_str(&format!("{} block x {}", d[0], d[1]));
                print_items(b, d, out);
                out.push_str(&format!("{} endblock {}", d[0], d[1]));
            }
        }
    }
}

/// The files whose content is read to compile this one.
fn closure(l: &Layout, leaf: &str, inline: bool) -> Result<Vec<String>, Stop> {
    let mut v = vec![leaf.to_string()];
    let mut k = 0;
    while k < v.len() {
        let f = v[k].clone();
        k += 1;
        let at = match inline && f == leaf {
            true => None,
            false => Some(f.as_str()),
        };
        let src = &l.files[&f];
        let mut names: Vec<&String> = src.imports.iter().chain(&src.extends).collect();
        fn inner<'a>(items: &'a [It], names: &mut Vec<&'a String>) {
            for i in items {
                match i {
                    It::Include(n) => names.push(n),
                    It::Block(b) => inner(b, names),
                    _ => {}
                }
            }
        }
        inner(&src.items, &mut names);
        inner(&src.mac, &mut names);
        for n in names {
            let p = l.find(n, at).ok_or(Stop::Missing)?;
            if !v.contains(&p) {
                v.push(p);
            }
        }
    }
    Ok(v)
}

/// Delimiters of a syntax, some of which may be left out of the configuration.
fn syntax(s: &mut Src, toml: &mut String, name: &str) -> Option<[String; 6]> {
    let mut d = Syn::gen(s).0;
    let default = Syn::default().0;
    const KEYS: [&str; 6] = ["block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"];
    toml.push_str(&format!("[[syntax]]\nname = {name:?}\n"));
    let mut given = [true; 6];
    for k in 0..6 {
        if s.chance(25) {
            d[k] = default[k].clone();
            given[k] = false;
        }
    }
    let starts = [&d[0], &d[2], &d[4]];
    let prefix = (0..3).any(|i| (0..3).any(|j| i != j && starts[i].starts_with(starts[j].as_str())));
    let comment = d[5].starts_with(d[4].as_str()) || d[4].starts_with(d[5].as_str());
    if prefix || comment {
        return None;
    }
    for k in 0..6 {
        if given[k] {
            // strings with escapes are not accepted: see the probe `escaped_delimiter`
            toml.push_str(&match d[k].contains(['"', '\\']) {
                true if d[k].contains('\'') => return None,
                true => format!("{} = '{}'\n", KEYS[k], d[k]),
                false => format!("{} = \"{}\"\n", KEYS[k], d[k]),
            });
        }
    }
    Some(d)
}

fn layout(s: &mut Src, alone: bool) -> Option<Prog> {
    let mut tags = vec![];
    let has_config = s.chance(85);
    // whether the configuration is the one of the crate
    let root_config = alone && s.chance(60);
    let mut general = String::from("[general]\n");
    let all = ["templates", "CASEDIR/d0", "CASEDIR/d1", "CASEDIR/d1/sub", "CASEDIR.x"];
    let mut dirs: Vec<String> = vec!["templates".into()];
    if has_config && s.chance(80) {
        dirs.clear();
        let mut rest: Vec<&str> = all.to_vec();
        for _ in 0..1 + s.below(3) {
            let k = s.below(rest.len());
            dirs.push(rest.remove(k).to_string());
        }
        let slash = if s.chance(20) { "/" } else { "" };
        let written: Vec<String> = dirs.iter().map(|d| format!("{d}{slash}")).collect();
        general.push_str(&format!("dirs = {written:?}\n"));
        if dirs.len() > 1 {
            tags.push("several_dirs");
        }
    } else {
        tags.push("default_dirs");
    }
    // syntaxes
    let mut toml = String::new();
    let mut syntaxes: Vec<(&str, [String; 6])> = vec![("default", Syn::default().0)];
    if has_config {
        for name in &["one", "two", "a b"][..s.below(4)] {
            let d = syntax(s, &mut toml, name)?;
            syntaxes.push((name, d));
        }
    }
    let mut selected = 0;
    if has_config && s.chance(50) {
        selected = s.below(syntaxes.len());
        general.push_str(&format!("default_syntax = {:?}\n", syntaxes[selected].0));
        tags.push("default_syntax");
    }
    let mut attrs = String::new();
    if s.chance(40) {
        selected = s.below(syntaxes.len());
        attrs.push_str(&format!(", syntax = {:?}", syntaxes[selected].0));
        tags.push("syntax_attribute");
    }
    let d = syntaxes[selected].1.clone();
    // what would be a tag in another syntax is text here
    let mut texts: Vec<String> = vec![];
    for (_, o) in &syntaxes {
        let t = format!(" {} 7 {} ", o[2], o[3]);
        let own = [&d[0], &d[2], &d[4]];
        let around = |t: &str| own.iter().any(|x| own.iter().any(|y| format!("{t}{y}").find(x.as_str()).map_or(false, |p| p < t.len())));
        if !around(&t) && !t.contains("//*") {
            texts.push(t);
        }
    }
    // files
    const NAMES: &[&str] = &["a.txt", "b.txt", "sub/a.txt", "sub/b.txt", "sub/sub/a.txt", "c.txt"];
    let mut places: Vec<String> = all.iter().map(|x| x.to_string()).collect();
    if alone {
        places.push(String::new());
    }
    // the directory that all cases share gets a subdirectory
    let prefixed = |n: &str| format!("{DIR}/{n}");
    let mut exists: Vec<(String, String)> = vec![];
    for p in &places {
        for n in NAMES {
            if s.chance(if dirs.contains(p) { 45 } else { 20 }) {
                let n = if p == "templates" { prefixed(n) } else { n.to_string() };
                exists.push((p.clone(), n));
            }
        }
    }
    let inline = s.chance(30);
    let mut l = Layout { dirs, files: BTreeMap::new() };
    let full = |p: &str, n: &str| if p.is_empty() { n.to_string() } else { format!("{p}/{n}") };
    for (p, n) in &exists {
        l.files.insert(full(p, n), Src1 { extends: None, imports: vec![], mac: vec![], items: vec![] });
    }
    // the leaf
    let mut names: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
    names.extend(NAMES.iter().map(|n| prefixed(n)));
    let leaf = match inline {
        true => "T.txt".to_string(),
        false => {
            let found: Vec<&String> = names.iter().filter(|n| l.find(n, None).is_some()).collect();
            let n = match found.is_empty() {
                true => return None,
                false => found[s.below(found.len())].clone(),
            };
            attrs = format!("path = {n:?}{attrs}");
            l.find(&n, None).unwrap()
        }
    };
    if inline {
        l.files.insert(leaf.clone(), Src1 { extends: None, imports: vec![], mac: vec![], items: vec![] });
    }
    // contents, only of files that are read
    let mut todo = vec![leaf.clone()];
    let mut done: Vec<String> = vec![];
    let mut text = 0;
    while let Some(f) = todo.pop() {
        if done.contains(&f) {
            continue;
        }
        done.push(f.clone());
        let at = match inline && f == leaf {
            true => None,
            false => Some(f.as_str()),
        };
        let deep = done.len() > 5;
        let pick = |s: &mut Src, todo: &mut Vec<String>| -> String {
            let found: Vec<&String> = names.iter().filter(|n| l.find(n, at).map_or(false, |p| p != f)).collect();
            if found.is_empty() || s.chance(3) {
                let n = s.pick(NAMES).to_string();
                todo.extend(l.find(&n, at));
                return n;
            }
            let n = found[s.below(found.len())].clone();
            todo.push(l.find(&n, at).unwrap());
            n
        };
        let mut mark = |s: &mut Src| {
            text += 1;
            match s.chance(25) && !texts.is_empty() {
                true => format!(" m{text} {} ", texts[s.below(texts.len())]),
                false => format!(" m{text} "),
            }
        };
        let mut n = Src1 { extends: None, imports: vec![], mac: vec![], items: vec![] };
        let few = if deep { 8 } else { 35 };
        if s.chance(few) {
            n.extends = Some(pick(s, &mut todo));
        }
        if s.chance(few) {
            n.imports.push(pick(s, &mut todo));
        }
        n.mac.push(It::Text(mark(s)));
        if s.chance(few / 2) {
            n.mac.push(It::Include(pick(s, &mut todo)));
        }
        n.items.push(It::Text(mark(s)));
        let mut b = vec![It::Text(mark(s))];
        if s.chance(few) {
            b.push(It::Include(pick(s, &mut todo)));
        }
        if !n.imports.is_empty() {
            b.push(It::Call(0));
        }
        n.items.push(It::Block(b));
        if s.chance(few) && n.extends.is_none() {
            n.items.push(It::Include(pick(s, &mut todo)));
        }
        n.items.push(It::Text(mark(s)));
        l.files.insert(f, n);
    }
    let mut ev = Eval { l: &l, leaf: &leaf, inline, out: String::new(), steps: 0 };
    let read = closure(&l, &leaf, inline);
    let expect = match (ev.file(&leaf, &[]), &read) {
        (Ok(()), Ok(_)) => Expect::Outputs(vec![("T".into(), ev.out.clone())]),
        // whether this is an error depends on whether what is not rendered is looked at
        (Ok(()), Err(_)) => return None,
        (Err(Stop::Missing), _) => {
            tags.push("missing");
            Expect::CompileError
        }
        (Err(Stop::Discard), _) => return None,
    };
    let read = read.unwrap_or_default();
    // recursion that is not rendered
    if read.iter().any(|f| { let e = Eval { l: &l, leaf: &leaf, inline, out: String::new(), steps: 0 }; e.chain(f).is_err() }) {
        return None;
    }
    let mut files = vec![];
    let mut source = String::new();
    for (path, f) in &l.files {
        let mut src = String::new();
        match done.contains(path) {
            true => {
                if let Some(e) = &f.extends {
                    src.push_str(&format!("{} extends {e:?} {}", d[0], d[1]));
                }
                for (k, i) in f.imports.iter().enumerate() {
                    src.push_str(&format!("{} import {i:?} as l{k} {}", d[0], d[1]));
                }
                src.push_str(&format!("{} macro m() {}", d[0], d[1]));
                print_items(&f.mac, &d, &mut src);
                src.push_str(&format!("{} endmacro {}", d[0], d[1]));
                src.push_str(&format!("{} {{# nothing #}} {}", d[4], d[5]).replace("{# nothing #}", "nothing"));
                print_items(&f.items, &d, &mut src);
            }
            // nobody reads these
            false => src.push_str(&format!("wrong {} if {}", d[0], d[2])),
        }
        match path == &leaf && inline {
            true => source = src,
            false => files.push((path.clone(), src)),
        }
    }
    let mut deps: Vec<String> = read.iter().filter(|f| !(inline && **f == leaf)).cloned().collect();
    if inline {
        attrs = format!("source = {}, ext = \"txt\"{attrs}", rust_str(&source));
    }
    let toml = format!("{}{toml}", if general.len() > 11 || s.chance(50) { general.as_str() } else { "" });
    if has_config {
        let name = match root_config {
            true => "askama.toml".to_string(),
            false => {
                let n = s.pick(&["CASEDIR.toml", "CASEDIR/conf/x.toml", "CASEDIR/templates"]).to_string();
                attrs.push_str(&format!(", config = {n:?}"));
                n
            }
        };
        deps.push(name.clone());
        files.push((name, toml));
    }
    if alone && !(has_config && root_config) && s.chance(70) && has_config {
        // the configuration of the crate is not the one that is named
        files.push(("askama.toml".into(), "[general]\ndirs = [\"nowhere\"]\ndefault_syntax = \"none\"\n".into()));
    }
    if read.len() > 1 {
        tags.push("several_files");
    }
    if inline {
        tags.push("inline");
    }
    let code = format!(
        "use askama::Template;\nuse crate::p;\n#[derive(Template)]\n#[template({attrs})]\nstruct T;\npub fn run(o: &mut Vec<String>) {{ o.push(p::render(&T)); }}\n"
    );
    Some(Prog { files, code, nontrivial: read.len() > 1 || expect == Expect::CompileError, expect, tags, deps })
}

fn c24(s: &mut Src) -> Option<Prog> {
    layout(s, false)
}

fn c24_alone(s: &mut Src) -> Option<Prog> {
    layout(s, true)
}

// ---- C25 ----

fn c25_world(s: &mut Src) -> Option<Prog> {
    let pr = Profile { include: 6, block: 4, call: 2, filters: 5, raw: 1, comment: 1, fuel: 12, fors: 2, ..Default::default() };
    let w = World { chain: 3, blocks: 3, libs: 2, macros: 1, shared: 2, here: 3, inline: true, dirs: true, ctx: true };
    let mut g = Gen::new(s, pr);
    let chain = world(&mut g, &w);
    let mut p = std::mem::take(&mut g.p);
    let leaf = *chain.last().unwrap();
    let read = reachable(&p, leaf);
    let setup = Setup { entries: vec![Entry { file: leaf, block: None, of: None }], instances: 1, ..Default::default() };
    let b = build(s, &mut p, &setup)?;
    let mut prog = finish(b, &[], 0);
    prog.deps = read.iter().map(|f| &p.files[*f].path).filter(|f| !f.is_empty()).map(|f| format!("templates/{f}")).collect();
    if let Expect::Outputs(o) = &mut prog.expect {
        // what is rendered is not the point here
        o.truncate(o.len());
    }
    prog.nontrivial = prog.deps.len() > 1;
    // files that are not used need not even exist
    if s.chance(50) {
        for (f, c) in &mut prog.files {
            if s.chance(40) && f.ends_with(".html") {
                *c = format!("{{# {{% include \"CASEDIR/missing.html\" %}} #}}{c}");
            }
        }
    }
    Some(prog)
}

pub fn e2e(id: &str) -> Vec<E2e> {
    let one = |name, quick, batch, gen, mode| E2e { name, quick, batch, gen, mode, web: None };
    match id {
        "C03" => vec![one("extensions", 4000, 40, c03, Mode::Plain)],
        "C24" => vec![one("layouts", 4000, 40, c24, Mode::Plain), one("crates", 240, 1, c24_alone, Mode::Plain)],
        "C25" => vec![one("layouts", 1600, 40, c24, Mode::Deps), one("worlds", 800, 40, c25_world, Mode::Deps), one("crates", 160, 1, c24_alone, Mode::Deps)],
        _ => vec![],
    }
}
