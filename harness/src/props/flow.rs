//! Programs that exercise the template language as a whole, each property with its own emphasis.
use crate::e2e::{E2e, Mode, Prog, DIR};
use crate::lang::asm::{build, finish, Entry, Setup};
use crate::lang::gen::{Gen, Profile, Texts, DIRS};
use crate::lang::*;
use crate::source::Src;

/// One template without other files.
fn single(s: &mut Src, pr: Profile, setup: Setup, need: &[&str], least: usize) -> Option<Prog> {
    let mut g = Gen::new(s, pr);
    let inline = g.s.chance(40);
    let path = match inline {
        true => String::new(),
        false => format!("{DIR}/main.{}", setup.ext),
    };
    g.add_file(&path);
    let depth = g.pr.depth;
    let nodes = g.list(depth, 6);
    let mut p = std::mem::take(&mut g.p);
    p.files[0].nodes = nodes;
    let b = build(s, &mut p, &setup)?;
    Some(finish(b, need, least))
}

/// What a generated set of files consists of.
#[derive(Clone, Copy, Default)]
pub struct World {
    /// longest inheritance chain
    pub chain: usize,
    /// number of block names
    pub blocks: usize,
    /// files with macros that can be imported
    pub libs: usize,
    /// macros per file
    pub macros: usize,
    /// files that can be included anywhere
    pub shared: usize,
    /// files made up where they are included
    pub here: usize,
    /// the leaf may be inline
    pub inline: bool,
    /// files are in several directories
    pub dirs: bool,
    /// included files call macros and imports of the including files
    pub ctx: bool,
}

fn block_names(nodes: &[Nd], out: &mut Vec<usize>) {
    for n in nodes {
        if let Nd::Block { name, .. } = n {
            out.push(name.trim_start_matches("blk").parse().unwrap());
        }
        for c in n.children() {
            block_names(c, out);
        }
    }
}

/// The macro and the import that included files rely on.
fn context(g: &mut Gen, ctx: &[usize], nodes: &mut Vec<Nd>) {
    let k = g.s.below(ctx.len());
    let (path, tag) = (g.path_to(ctx[k]), g.tag());
    let import = Nd::Import(tag, path, "ci".into(), ctx[k]);
    let def = g.ctx_macro();
    match g.s.chance(50) {
        true => nodes.extend([import, def]),
        false => nodes.extend([def, import]),
    }
}

/// Imports and macros at the top of the current file.
fn preamble(g: &mut Gen, w: &World, libs: &[usize], nodes: &mut Vec<Nd>) {
    // files use different names for the same file and the same name for different files
    let mut names = vec!["lib0", "lib1", "m0", "i"];
    for l in libs {
        if g.s.chance(60) {
            let (path, tag) = (g.path_to(*l), g.tag());
            let k = if g.s.chance(40) { 0 } else { g.s.below(names.len()) };
            let scope = names.remove(k).to_string();
            nodes.push(Nd::Import(tag, path, scope.clone(), *l));
            let cur = g.cur;
            g.infos[cur].imports.push((scope, *l));
        }
    }
    if w.macros > 0 {
        let least = (w.macros > 1) as usize;
        for _ in 0..least + g.s.below(w.macros + 1 - least) {
            let name = format!("m{}", g.infos[g.cur].macros.len());
            let n = g.gen_macro(&name, 2);
            nodes.push(n);
        }
    }
}

fn place(g: &mut Gen, w: &World, what: &str) -> String {
    let d = match w.dirs {
        true => g.s.of(DIRS),
        false => "",
    };
    format!("{DIR}{d}/{what}{}.{}", g.p.files.len(), g.ext)
}

/// An inheritance chain; returns its files from the base to the leaf.
fn chain_of(g: &mut Gen, w: &World, libs: &[usize], ctx: &[usize], longest: usize, what: &str, inline: bool) -> Vec<usize> {
    let n = match longest > 2 && g.s.chance(70) {
        true => 2 + g.s.below(longest - 1),
        false => 1 + g.s.below(longest),
    };
    let mut files: Vec<usize> = vec![];
    let mut known: Vec<usize> = vec![];
    let included = what == "inc";
    for k in 0..n {
        let path = match inline && k + 1 == n {
            true => String::new(),
            false => place(g, w, what),
        };
        let f = g.add_file(&path);
        g.cur = f;
        g.fuel = g.pr.fuel;
        g.scopes = vec![vec![]];
        g.blocks = (0..w.blocks).collect();
        g.block_min = 0;
        g.ancestor_blocks = known.clone();
        let mut nodes = vec![];
        // an included file without ancestors can use what the including one has
        let own = !ctx.is_empty() && (!included || n > 1 || g.s.chance(30));
        g.ctx_call = !ctx.is_empty();
        if let Some(&parent) = files.last() {
            if g.s.chance(10) {
                let t = g.text_src();
                let id = g.add_text(t);
                nodes.push(Nd::Text(id));
            }
            nodes.push(Nd::Extends(g.path_to(parent), parent));
            if own {
                context(g, ctx, &mut nodes);
            }
            preamble(g, w, libs, &mut nodes);
            for b in 0..w.blocks {
                if !g.blocks.contains(&b) || g.s.chance(35) {
                    continue;
                }
                g.blocks.retain(|x| *x != b);
                if g.s.chance(30) {
                    let t = g.text_src();
                    let id = g.add_text(t);
                    nodes.push(Nd::Text(id));
                }
                let nd = g.block_named(b, 3);
                nodes.push(nd);
            }
        } else {
            if own {
                context(g, ctx, &mut nodes);
            }
            preamble(g, w, libs, &mut nodes);
            g.fuel = g.pr.fuel;
            let depth = g.pr.depth;
            nodes.extend(g.list(depth, 7));
            for b in 0..w.blocks {
                if w.blocks > 2 && g.blocks.contains(&b) && g.s.chance(30) {
                    g.blocks.retain(|x| *x != b);
                    let nd = g.block_named(b, 3);
                    nodes.push(nd);
                }
            }
            if w.macros > 1 {
                for _ in 0..g.s.below(3) {
                    g.call(&mut nodes);
                }
            }
        }
        g.ending(&mut nodes);
        block_names(&nodes, &mut known);
        g.p.files[f].nodes = nodes;
        files.push(f);
    }
    files
}

/// Generates all files; returns the chain of the main template from the base to the leaf.
pub fn world(g: &mut Gen, w: &World) -> Vec<usize> {
    let mut libs = vec![];
    g.here = w.here.min(1);
    let least = (w.libs > 1) as usize;
    for _ in 0..least + g.s.below(w.libs + 1 - least) {
        let path = place(g, w, "lib");
        let f = g.add_file(&path);
        g.cur = f;
        g.fuel = g.pr.fuel;
        let mut nodes = vec![];
        let lw = World { macros: w.macros.max(1), ..*w };
        preamble(g, &lw, &libs, &mut nodes);
        if g.s.chance(30) {
            let t = g.text_src();
            let id = g.add_text(t);
            nodes.push(Nd::Text(id));
        }
        g.ending(&mut nodes);
        g.p.files[f].nodes = nodes;
        libs.push(f);
    }
    let mut ctx = vec![];
    if w.ctx && g.s.chance(60) {
        for _ in 0..2 {
            let path = place(g, w, "ctx");
            let f = g.add_file(&path);
            g.cur = f;
            let def = g.ctx_macro();
            g.p.files[f].nodes = vec![def];
            ctx.push(f);
        }
    }
    let mut shared = vec![];
    g.stable_only = true;
    for _ in 0..g.s.below(w.shared + 1) {
        g.includes = shared.clone();
        let fuel = std::mem::replace(&mut g.pr.fuel, 8);
        let files = chain_of(g, w, &libs, &ctx, w.chain.min(2).max(1), "inc", false);
        g.pr.fuel = fuel;
        shared.push(*files.last().unwrap());
    }
    g.stable_only = false;
    g.includes = shared;
    g.here = w.here;
    let inline = w.inline && g.s.chance(30);
    chain_of(g, w, &libs, &ctx, w.chain.max(1), "main", inline)
}

pub fn with_world(s: &mut Src, pr: Profile, w: World, mut setup: Setup, all: bool, need: &[&str], least: usize) -> Option<Prog> {
    let mut g = Gen::new(s, pr);
    g.ext = setup.ext;
    let chain = world(&mut g, &w);
    let mut p = std::mem::take(&mut g.p);
    let leaf = *chain.last().unwrap();
    setup.entries = match all {
        true => chain.iter().map(|f| Entry { file: *f, block: None, of: None }).collect(),
        false => vec![Entry { file: leaf, block: None, of: None }],
    };
    let b = build(s, &mut p, &setup)?;
    Some(finish(b, need, least))
}

pub fn ext(s: &mut Src) -> (&'static str, bool) {
    match s.chance(30) {
        true => ("txt", false),
        false => ("html", true),
    }
}

const BRANCHES: &[&str] = &["if_first", "if_elif", "if_else", "if_let", "if_none", "match_first", "match_later", "match_else"];
const LOOPS: &[&str] = &["for_many", "for_else", "for_skipped", "loop_var", "cycle", "break", "continue", "for_one", "for_empty"];

fn c07(s: &mut Src) -> Option<Prog> {
    let pr = Profile { ifs: 7, matches: 7, fors: 1, lets: 1, filters: 5, raw: 0, comment: 0, ..Default::default() };
    let (ext, html) = ext(s);
    single(s, pr, Setup { ext, html, ..Default::default() }, BRANCHES, 2)
}

fn c08(s: &mut Src) -> Option<Prog> {
    let pr = Profile { fors: 9, brk: 3, loop_vars: 8, ifs: 2, matches: 1, lets: 1, filters: 5, raw: 0, comment: 0, ..Default::default() };
    let (ext, html) = ext(s);
    single(s, pr, Setup { ext, html, ..Default::default() }, LOOPS, 2)
}

const SHORT: &[&str] = &["a", "i", "s", "x"];

fn c09(s: &mut Src) -> Option<Prog> {
    let pr = Profile { lets: 8, fors: 3, ifs: 3, matches: 2, filters: 5, raw: 0, comment: 0, names: SHORT, fuel: 26, ..Default::default() };
    let (ext, html) = ext(s);
    single(s, pr, Setup { ext, html, ..Default::default() }, &["let", "assign", "shadow_var", "shadow_field", "local"], 2)
}

/// Scopes of macros and included templates.
fn c09_calls(s: &mut Src) -> Option<Prog> {
    let pr = Profile { lets: 7, call: 5, include: 5, filters: 5, raw: 0, comment: 0, names: SHORT, fuel: 14, ..Default::default() };
    let w = World { chain: 1, libs: 1, macros: 2, here: 4, inline: true, dirs: true, ctx: true, ..Default::default() };
    let (ext, html) = ext(s);
    with_world(s, Profile { block: 0, ..pr }, w, Setup { ext, html, ..Default::default() }, false, &["let", "assign", "shadow_var", "shadow_field", "local", "call", "include"], 3)
}

fn c10(s: &mut Src) -> Option<Prog> {
    let pr = Profile { block: 9, include: 0, filters: 5, raw: 0, comment: 0, fuel: 12, fors: 1, lets: 2, ..Default::default() };
    let w = World { chain: 4, blocks: 5, libs: 2, macros: 1, inline: true, dirs: true, ..Default::default() };
    let (ext, html) = ext(s);
    with_world(s, Profile { call: 2, ..pr }, w, Setup { ext, html, instances: 2, ..Default::default() }, true, &["block_overridden", "super", "block_nested"], 2)
}

/// A file without blocks that includes a given one, maybe in several steps.
fn including(g: &mut Gen, w: &World, file: usize) -> Option<usize> {
    let mut inner = file;
    if g.p.files[file].path.is_empty() {
        return None;
    }
    // a variable of the outer files would hide fields from the included one
    (g.pr.block, g.pr.include, g.pr.call, g.pr.lets) = (0, 0, 0, 0);
    for k in (0..1 + g.s.below(2)).rev() {
        let path = match k == 0 && g.s.chance(30) {
            true => String::new(),
            false => place(g, w, "outer"),
        };
        let f = g.add_file(&path);
        g.cur = f;
        g.fuel = 4;
        g.scopes = vec![vec![]];
        g.blocks = vec![];
        let mut nodes = g.list(2, 3);
        let (path, tag) = (g.path_to(inner), g.tag());
        nodes.push(Nd::Include(tag, path, inner));
        nodes.extend(g.list(2, 3));
        g.p.files[f].nodes = nodes;
        inner = f;
    }
    Some(inner)
}

fn c11(s: &mut Src) -> Option<Prog> {
    let pr = Profile { block: 9, filters: 5, raw: 0, comment: 0, fuel: 12, fors: 1, lets: 2, call: 1, include: 1, ..Default::default() };
    let w = World { chain: 3, blocks: 4, libs: 1, macros: 1, shared: 1, here: 1, dirs: true, ..Default::default() };
    let (ext, html) = ext(s);
    let mut g = Gen::new(s, pr);
    g.ext = ext;
    let chain = world(&mut g, &w);
    let outer = match g.s.chance(30) {
        true => including(&mut g, &w, *chain.last().unwrap()),
        false => None,
    };
    let mut p = std::mem::take(&mut g.p);
    let mut setup = Setup { ext, html, instances: 2, entries: vec![], ..Default::default() };
    // every block of every template
    let mut known = vec![];
    for f in &chain {
        block_names(&p.files[*f].nodes, &mut known);
        known.sort();
        known.dedup();
        for b in &known {
            setup.entries.push(Entry { file: *f, block: Some(format!("blk{b}")), of: None });
        }
    }
    let leaf = *chain.last().unwrap();
    if let Some(outer) = outer {
        setup.entries.truncate(3);
        // only blocks that the included file writes once, at its top level; control flow around them would be
        // written, too
        let mut others = vec![];
        for (k, f) in p.files.iter().enumerate() {
            for n in &f.nodes {
                match n {
                    Nd::Block { body, .. } if chain.contains(&k) => block_names(body, &mut others),
                    _ if chain.contains(&k) => n.children().iter().for_each(|c| block_names(c, &mut others)),
                    _ => block_names(std::slice::from_ref(n), &mut others),
                }
            }
        }
        for n in &p.files[chain[0]].nodes {
            let Nd::Block { name: b, .. } = n else { continue };
            if others.iter().any(|o| *b == format!("blk{o}")) {
                continue;
            }
            let b = b.clone();
            setup.entries.push(Entry { file: outer, block: Some(b), of: Some(leaf) });
        }
    }
    if setup.entries.is_empty() {
        return None;
    }
    while setup.entries.len() > 6 {
        let k = s.below(setup.entries.len());
        setup.entries.remove(k);
    }
    let b = build(s, &mut p, &setup)?;
    Some(finish(b, &["block_overridden", "super", "block_nested", "expr", "if_first", "for_many"], 2))
}

fn c12(s: &mut Src) -> Option<Prog> {
    let pr = Profile { call: 9, include: 1, filters: 10, raw: 0, comment: 0, fuel: 14, names: SHORT, ..Default::default() };
    let w = World { chain: 2, blocks: 1, libs: 2, macros: 3, here: 1, inline: true, dirs: true, ctx: true, ..Default::default() };
    let (ext, html) = ext(s);
    with_world(s, Profile { block: 1, ..pr }, w, Setup { ext, html, ..Default::default() }, false, &["call", "call_imported", "local"], 2)
}

fn c13(s: &mut Src) -> Option<Prog> {
    let pr = Profile { include: 6, filters: 5, raw: 0, comment: 0, fuel: 16, lets: 4, fors: 3, call: 1, ..Default::default() };
    let w = World { chain: 2, blocks: 2, libs: 2, macros: 1, shared: 2, here: 5, inline: true, dirs: true, ctx: true };
    let (ext, html) = ext(s);
    with_world(s, Profile { block: 1, ..pr }, w, Setup { ext, html, ..Default::default() }, false, &["include", "include_nested", "local"], 2)
}

const FILTERS: &[&str] = &["filter", "filter_block", "wrapped", "failed"];

fn c14(s: &mut Src) -> Option<Prog> {
    let fails = s.of(&[0, 0, 20]);
    let pr = Profile { filters: 85, filter_block: 5, fails, raw: 0, comment: 0, expr: 10, fors: 1, lets: 1, ..Default::default() };
    let (ext, html) = ext(s);
    single(s, pr, Setup { ext, html, ..Default::default() }, FILTERS, 2)
}

fn c18(s: &mut Src) -> Option<Prog> {
    let effects = s.of(&[20, 40, 60]);
    let fails = s.of(&[0, 0, 4]);
    let pr = Profile { effects, fails, filters: 20, raw: 0, comment: 0, fuel: 16, call: 3, include: 2, block: 2, ..Default::default() };
    let w = World { chain: 2, blocks: 2, libs: 1, macros: 2, shared: 1, here: 1, inline: true, dirs: false, ctx: false };
    let (ext, html) = ext(s);
    with_world(s, pr, w, Setup { ext, html, log: true, instances: 2, ..Default::default() }, false, &["effect"], 1)
}

fn c19(s: &mut Src) -> Option<Prog> {
    let fails = s.of(&[0, 0, 4, 12]);
    let pr = Profile { fails, filters: 30, raw: 2, comment: 1, fuel: 16, call: 4, include: 3, block: 3, filter_block: 3, ..Default::default() };
    let w = World { chain: 3, blocks: 3, libs: 1, macros: 2, shared: 1, here: 2, inline: true, dirs: false, ctx: false };
    let (ext, html) = ext(s);
    let fragments = s.chance(30);
    let need = &["text", "expr", "filter", "call", "include", "block", "filter_block", "failed"];
    with_world(s, pr, w, Setup { ext, html, instances: 2, entries_agree: true, ..Default::default() }, fragments, need, 3)
}

fn c02(s: &mut Src) -> Option<Prog> {
    let pr = Profile { expr: 10, filters: 35, raw: 1, call: 3, include: 2, block: 2, filter_block: 2, fuel: 16, ..Default::default() };
    let w = World { chain: 3, blocks: 3, libs: 1, macros: 2, shared: 1, here: 2, inline: true, dirs: false, ctx: false };
    let exts: &[(&str, bool)] = &[
        ("html", true), ("htm", true), ("xml", true), ("svg", true), ("html.j2", true), ("svg.jinja", true), ("xml.jinja2", true), ("txt", false),
        ("md", false), ("yml", false), ("typ", false), ("none", false), ("txt.j2", true),
    ];
    let (ext, html) = match s.chance(75) {
        true => exts[s.below(7)],
        false => exts[7 + s.below(6)],
    };
    with_world(s, pr, w, Setup { ext, html, ..Default::default() }, false, &["expr", "wrapped", "call", "include", "block", "filter_block"], 2)
}

fn c04(s: &mut Src) -> Option<Prog> {
    let pr = Profile { text: 12, expr: 3, raw: 5, comment: 3, texts: Texts::Nasty, filters: 5, ws: 4, call: 1, include: 1, block: 1, fuel: 18, ..Default::default() };
    let w = World { chain: 2, blocks: 2, libs: 1, macros: 1, shared: 0, here: 2, inline: true, dirs: false, ctx: false };
    let (ext, html) = ext(s);
    with_world(s, pr, w, Setup { ext, html, instances: 2, ..Default::default() }, false, &["text", "raw"], 2)
}

fn c05(s: &mut Src) -> Option<Prog> {
    let pr = Profile {
        text: 14, expr: 4, raw: 3, comment: 3, ws: s.of(&[45, 20, 70]), texts: Texts::Ws, filters: 5, ifs: 3, fors: 2, matches: 2, lets: 3, call: 2, include: 2,
        block: 2, filter_block: 2, fuel: 20, ..Default::default()
    };
    let w = World { chain: 2, blocks: 2, libs: 1, macros: 2, shared: 1, here: 2, inline: true, dirs: false, ctx: false };
    let (ext, html) = ext(s);
    let name = |c: u8| match c {
        b'-' => "suppress",
        b'~' => "minimize",
        _ => "preserve",
    };
    let mut setup = Setup { ext, html, instances: 2, ..Default::default() };
    // the default of the configuration, which the derive attribute can override
    let config = s.of(&[0, b'-', b'~', b'+']);
    let attr = s.of(&[0, 0, b'-', b'~', b'+']);
    if config != 0 {
        setup.config = Some(format!("[general]\nwhitespace = {:?}\n", name(config)));
        setup.default_ws = config;
    }
    if attr != 0 {
        setup.attrs = format!(", whitespace = {:?}", name(attr));
        setup.default_ws = attr;
    }
    with_world(s, pr, w, setup, false, &["text"], 1)
}

pub fn e2e(id: &str) -> Vec<E2e> {
    let one = |name, quick, gen| vec![E2e { name, quick, batch: 40, gen, mode: Mode::Plain, web: None }];
    match id {
        "C02" => one("escaping", 2400, c02),
        "C04" => one("text", 2400, c04),
        "C05" => one("whitespace", 3200, c05),
        "C07" => one("branches", 2400, c07),
        "C08" => one("loops", 2400, c08),
        "C09" => one("scopes", 2000, c09).into_iter().chain(one("calls", 1200, c09_calls)).collect(),
        "C10" => one("inheritance", 1600, c10),
        "C11" => one("fragments", 1200, c11),
        "C12" => one("macros", 2400, c12),
        "C13" => one("includes", 2400, c13),
        "C14" => one("filters", 2400, c14),
        "C18" => one("effects", 2400, c18),
        "C19" => one("derived", 1600, c19),
        _ => vec![],
    }
}
