//! C23: programs with exactly one defect, which the derive macro has to report.
use super::flow::{world, World};
use crate::e2e::{E2e, Expect, Mode, Prog, DIR};
use crate::lang::asm::{build, finish, Entry, Setup};
use crate::lang::gen::{Gen, Profile};
use crate::lang::*;
use crate::source::Src;
use std::collections::BTreeSet;

/// Where a piece of source may be inserted.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// anywhere in any file that is read
    Any,
    /// not directly inside of if, for or match
    Plain,
    /// at the top of any file that is read
    Top,
    /// the same, but only where there is no loop around
    NoLoop,
    /// where code is generated for it, without a loop around
    Live,
    /// the same, inside of a loop
    LiveLoop,
    /// at the top of the root file
    LiveTop,
    /// the same, inside of something else
    LiveNested,
    /// at the top of a file that extends another
    Child,
}
use At::*;

/// Where, the defect, and what it is without the defect.
const DEFECTS: &[(At, &str, &str)] = &[
    // unclosed and mismatched tags
    (Any, "{% if self.b %}", "{% if self.b %}{% endif %}"),
    (Any, "{% endif %}", ""),
    (Any, "{% if self.b %}{% endfor %}", "{% if self.b %}{% endif %}"),
    (Any, "{% if self.b %}{% else %}{% else %}{% endif %}", "{% if self.b %}{% else %}{% endif %}"),
    (Any, "{% if self.b %}{% else %}{% else if self.c %}{% endif %}", "{% if self.b %}{% else if self.c %}{% else %}{% endif %}"),
    (Any, "{% if %}{% endif %}", "{% if true %}{% endif %}"),
    (Any, "{% if self.b %}{% elseif self.c %}{% endif %}", "{% if self.b %}{% else if self.c %}{% endif %}"),
    (Any, "{% if self.b c %}{% endif %}", "{% if self.b && self.c %}{% endif %}"),
    (Any, "{% if let Some(x) %}{% endif %}", "{% if let Some(x) = self.o %}{% endif %}"),
    (Plain, "{% else %}", ""),
    (Plain, "{% when 1 %}", ""),
    (Any, "{% for x in self.xs %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% for x xs %}{% endfor %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% for x in %}{% endfor %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% for x in self.xs %}{% else %}{% else %}{% endfor %}", "{% for x in self.xs %}{% else %}{% endfor %}"),
    (Any, "{% for x in self.xs if %}{% endfor %}", "{% for x in self.xs if true %}{% endfor %}"),
    (Any, "{% for x in self.xs %}{% endif %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% endfor %}", ""),
    (Any, "{% match self.i %}{% endmatch %}", "{% match self.i %}{% when _ %}{% endmatch %}"),
    (Any, "{% match self.i %}{% when _ %}", "{% match self.i %}{% when _ %}{% endmatch %}"),
    (Any, "{% match self.i %}{% when %}{% endmatch %}", "{% match self.i %}{% when 1 %}{% when _ %}{% endmatch %}"),
    (Any, "{% match %}{% when _ %}{% endmatch %}", "{% match self.i %}{% when _ %}{% endmatch %}"),
    (Any, "{% endmatch %}", ""),
    (Any, "{% endblock %}", ""),
    (Any, "{% endmacro %}", ""),
    (Any, "{% endfilter %}", ""),
    (Any, "{% endraw %}", ""),
    (Top, "{% block zz %}", ""),
    (Top, "{% block %}{% endblock %}", ""),
    (Top, "{% macro zz() %}", "{% macro zz() %}{% endmacro %}"),
    (Top, "{% macro %}{% endmacro %}", "{% macro zz() %}{% endmacro %}"),
    (Top, "{% macro zz( %}{% endmacro %}", "{% macro zz() %}{% endmacro %}"),
    (Top, "{% macro zz(a b) %}{% endmacro %}", "{% macro zz(a, b) %}{% endmacro %}"),
    (Top, "{% macro super() %}{% endmacro %}", "{% macro supper() %}{% endmacro %}"),
    (Top, "{% macro zz() %}{% endmacro yy %}", "{% macro zz() %}{% endmacro zz %}"),
    (Any, "{% filter upper %}", "{% filter upper %}{% endfilter %}"),
    (Any, "{% filter %}{% endfilter %}", "{% filter upper %}{% endfilter %}"),
    (Any, "{% filter upper| %}{% endfilter %}", "{% filter upper|lower %}{% endfilter %}"),
    (Any, "{% raw %}", "{% raw %}{% endraw %}"),
    (Any, "{# x", "{# x #}"),
    (Any, "{# a {# b #}", "{# a {# b #} #}"),
    (Any, "{# a {# {# b #} #}", "{# a {# {# b #} #} #}"),
    // keywords that are part of other words
    (Any, "{% iftrue %}{% endif %}", "{% if true %}{% endif %}"),
    (Any, "{% if true %}{% endifs %}", "{% if true %}{% endif %}"),
    (Any, "{% if true %}{% elsewhere %}{% endif %}", "{% if true %}{% else %}{% endif %}"),
    (Any, "{% if true %}{% elif1 %}{% endif %}", "{% if true %}{% elif true %}{% endif %}"),
    (Any, "{% if letSome(x) = self.o %}{% endif %}", "{% if let Some(x) = self.o %}{% endif %}"),
    (Any, "{% forx in self.xs %}{% endfor %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% for x inself.xs %}{% endfor %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% for x in self.xs iftrue %}{% endfor %}", "{% for x in self.xs if true %}{% endfor %}"),
    (Any, "{% for x in self.xs %}{% endforx %}", "{% for x in self.xs %}{% endfor %}"),
    (Any, "{% matchself.i %}{% when _ %}{% endmatch %}", "{% match self.i %}{% when _ %}{% endmatch %}"),
    (Any, "{% match self.i %}{% when_ %}{% endmatch %}", "{% match self.i %}{% when _ %}{% endmatch %}"),
    (Any, "{% letzz = 1 %}", "{% let zz = 1 %}"),
    (Any, "{% filterupper %}{% endfilter %}", "{% filter upper %}{% endfilter %}"),
    (Any, "{% rawx %}{% endraw %}", "{% raw %}{% endraw %}"),
    (Any, "{% raw %}{% endrawx %}", "{% raw %}{% endraw %}"),
    (Top, "{% blockzz %}{% endblock %}", "{% block zz %}{% endblock %}"),
    (Top, "{% macrozz() %}{% endmacro %}", "{% macro zz() %}{% endmacro %}"),
    // malformed expressions
    (Any, "{{ }}", ""),
    (Any, "{{ i", ""),
    (Any, "{{ i i }}", ""),
    (Any, "{{ i + }}", ""),
    (Any, "{{ * i }}", ""),
    (Any, "{{ (i }}", ""),
    (Any, "{{ i) }}", ""),
    (Any, "{{ xs[0 }}", ""),
    (Any, "{{ xs[] }}", ""),
    (Any, "{{ \"abc }}", ""),
    (Any, "{{ self.i| }}", ""),
    (Any, "{{ self.s|upper( }}", ""),
    (Any, "{{ i. }}", ""),
    (Any, "{{ p::add(i, }}", ""),
    (Any, "{{ i && }}", ""),
    (Any, "{{ [i, j }}", ""),
    (Any, "{{ i = 1 }}", ""),
    (Any, "{{ p::add(a=1, a=1) }}", ""),
    (Any, "{{ i %}", ""),
    (Any, "{% if self.b }}{% endif %}", "{% if self.b %}{% endif %}"),
    // malformed statements
    (Any, "{% foo %}", ""),
    (Any, "{% %}", ""),
    (Any, "{% i %}", ""),
    (Any, "{%", ""),
    (Any, "{{", ""),
    (Any, "{% let %}", "{% let zz = 1 %}"),
    (Any, "{% let zz = %}", "{% let zz = 1 %}"),
    (Any, "{% let a b %}", "{% let zz = 1 %}"),
    (Any, "{% let self = 1 %}", "{% let zz = 1 %}"),
    (Any, "{% let writer = 1 %}", "{% let zz = 1 %}"),
    (Any, "{% include x %}", ""),
    (Any, "{% include %}", ""),
    (Top, "{% import \"x\" %}", ""),
    (Any, "{% call %}", ""),
    (Any, "{% call m0( %}", ""),
    (Any, "{% call m0(a=1, a=1) %}", ""),
    (Any, "{% if self.b x %}{% endif %}", ""),
    (NoLoop, "{% break %}", ""),
    (NoLoop, "{% continue %}", ""),
    (NoLoop, "{% if self.b %}{% break %}{% endif %}", "{% for x in self.xs %}{% break %}{% endfor %}"),
    (NoLoop, "{% for x in self.xs %}{% else %}{% break %}{% endfor %}", "{% for x in self.xs %}{% break %}{% else %}{% endfor %}"),
    (NoLoop, "{% for x in self.xs %}{% else %}{% continue %}{% endfor %}", ""),
    // missing files and structure
    (Any, "{% include \"nosuchfile.html\" %}", ""),
    (Top, "{% import \"nosuchfile.html\" as zz %}", ""),
    (Child, "{% extends \"nosuchfile.html\" %}", ""),
    (LiveNested, "{% macro zz() %}{% endmacro %}", ""),
    (LiveNested, "{% import \"nosuchfile.html\" as zz %}", ""),
    (LiveNested, "{% extends \"nosuchfile.html\" %}", ""),
    (Live, "{% if self.b %}{% macro zz() %}{% endmacro %}{% endif %}", ""),
    (Live, "{% for x in self.xs %}{% macro zz() %}{% endmacro %}{% endfor %}", ""),
    (Live, "{% for x in self.xs %}{% else %}{% macro zz() %}{% endmacro %}{% endfor %}", ""),
    (Live, "{% match self.i %}{% when _ %}{% macro zz() %}{% endmacro %}{% endmatch %}", ""),
    (Live, "{% filter upper %}{% macro zz() %}{% endmacro %}{% endfilter %}", ""),
    (LiveTop, "{% block zz %}{% macro zz() %}{% endmacro %}{% endblock %}", "{% block zz %}{% endblock %}{% macro zz() %}{% endmacro %}"),
    (Top, "{% block zz %}{% endblock yy %}", "{% block zz %}{% endblock zz %}"),
    (Top, "{% block zz %}{% endblock %}{% block zz %}{% endblock %}", "{% block zz %}{% endblock %}{% block yy %}{% endblock %}"),
    (Top, "{% if self.b %}{% block zz %}{% endblock %}{% else %}{% block zz %}{% endblock %}{% endif %}", ""),
    (Top, "{% block zz %}{% block yy %}{% endblock %}{% endblock %}{% block yy %}{% endblock %}", "{% block zz %}{% block yy %}{% endblock %}{% endblock %}"),
    (Top, "{% block zz %}{% block zz %}{% endblock %}{% endblock %}", "{% block zz %}{% endblock %}"),
    (LiveTop, "{% filter upper %}{% block zz %}{% endblock %}{% endfilter %}", "{% filter upper %}{% endfilter %}{% block zz %}{% endblock %}"),
    (LiveTop, "{% block zz %}{% call super() %}{% endblock %}", "{% block zz %}{% endblock %}"),
    (LiveTop, "{% call super() %}", ""),
    (LiveTop, "{% macro zz() %}{% call super() %}{% endmacro %}{% call zz() %}", "{% macro zz() %}{% endmacro %}{% call zz() %}"),
    // macros
    (Live, "{% call nope() %}", ""),
    (Live, "{% call libz::m0() %}", ""),
    (LiveTop, "{% macro zz(a) %}{% endmacro %}{% call zz() %}", "{% macro zz(a) %}{% endmacro %}{% call zz(1) %}"),
    (LiveTop, "{% macro zz(a) %}{% endmacro %}{% call zz(1, 2) %}", "{% macro zz(a) %}{% endmacro %}{% call zz(1) %}"),
    (LiveTop, "{% macro zz() %}{% endmacro %}{% call zz(i) %}", "{% macro zz() %}{% endmacro %}{% call zz() %}"),
    (LiveTop, "{% macro zz(a) %}{% endmacro %}{% call zz(b=1) %}", "{% macro zz(a) %}{% endmacro %}{% call zz(a=1) %}"),
    (LiveTop, "{% macro zz(a, d) %}{% endmacro %}{% call zz(1, a=2) %}", "{% macro zz(a, d) %}{% endmacro %}{% call zz(1, d=2) %}"),
    (LiveTop, "{% macro zz(a, d) %}{% endmacro %}{% call zz(a=1, 2) %}", "{% macro zz(a, d) %}{% endmacro %}{% call zz(d=1, a=2) %}"),
    (LiveTop, "{% macro zz(a, d) %}{% endmacro %}{% call zz(a=1, a=2) %}", "{% macro zz(a, d) %}{% endmacro %}{% call zz(a=1, d=2) %}"),
    (LiveTop, "{% macro zz() %}{% call zz() %}{% endmacro %}{% call zz() %}", "{% macro zz() %}{% endmacro %}{% call zz() %}"),
    (
        LiveTop,
        "{% macro zz() %}{% call yy() %}{% endmacro %}{% macro yy() %}{% if self.b %}{% call zz() %}{% endif %}{% endmacro %}{% call zz() %}",
        "{% macro zz() %}{% call yy() %}{% endmacro %}{% macro yy() %}{% endmacro %}{% call zz() %}",
    ),
    // filters and loop variables
    (Live, "{{ self.s|nosuchfilter }}", ""),
    (Live, "{% filter nosuchfilter %}{% endfilter %}", "{% filter upper|lower %}{% endfilter %}"),
    (Live, "{{ self.s|upper(1) }}", "{{ \"\"|upper }}"),
    (Live, "{{ self.s|truncate }}", "{{ \"\"|truncate(1) }}"),
    (Live, "{{ self.s|escape(\"nope\") }}", "{{ \"\"|escape(\"html\") }}"),
    (Live, "{{ self.s|e(1) }}", "{{ \"\"|e(\"none\") }}"),
    (Live, "{{ self.s|e(\"html\", 1) }}", "{{ \"\"|e(\"html\") }}"),
    (Live, "{{ self.s|safe(1) }}", "{{ \"\"|safe }}"),
    (Live, "{{ self.i|json(1, 2) }}", ""),
    (Live, "{{ self.s|fmt }}", "{{ \"\"|fmt(\"{}\") }}"),
    (Live, "{{ self.s|fmt(s) }}", ""),
    (Live, "{{ self.s|fmt(\"{}\", 1) }}", ""),
    (Live, "{{ self.s|format }}", "{{ \"{}\"|format(\"\") }}"),
    (Live, "{{ self.xs|as_ref(1) }}", ""),
    (Live, "{{ self.xs|deref(1) }}", ""),
    (LiveLoop, "{{ loop.nope }}", "{% if loop.first %}{% endif %}"),
    (LiveLoop, "{{ loop.nope() }}", ""),
    (LiveLoop, "{{ loop.cycle([]) }}", "{{ loop.cycle([\"\"]) }}"),
    (LiveLoop, "{{ loop.cycle(1, 2) }}", ""),
    (LiveLoop, "{{ loop.cycle() }}", ""),
    (Live, "{{ loop.index }}", "{% for x in self.xs %}{% if loop.first %}{% endif %}{% endfor %}"),
    (Live, "{{ loop.cycle([1]) }}", "{% for x in self.xs %}{{ loop.cycle([\"\"]) }}{% endfor %}"),
    (Live, "{% for x in self.xs %}{% else %}{{ loop.first }}{% endfor %}", ""),
    // names that are not in scope
    (Live, "{{ nofield }}", ""),
    (Live, "{{ i.nofield }}", ""),
    (Live, "{{ self.nofield }}", ""),
    (Live, "{{ nofn(i) }}", ""),
    (Live, "{{ p::nofn(i) }}", ""),
    (Live, "{% if true %}{% let zz = \"\" %}{% endif %}{{ zz }}", "{% if true %}{% let zz = \"\" %}{{ zz }}{% endif %}"),
    (Live, "{% if true %}{% let zz = \"\" %}{% else %}{{ zz }}{% endif %}", "{% let zz = \"\" %}{{ zz }}"),
    (Live, "{% if let Some(zz) = self.o %}{% endif %}{{ zz }}", "{% if let Some(zz) = self.o %}{% if zz.clone() > 0 %}{% endif %}{% endif %}"),
    (Live, "{% if let Some(zz) = self.o %}{% else %}{{ zz }}{% endif %}", ""),
    (Live, "{% for zz in self.xs %}{% endfor %}{{ zz }}", "{% for zz in self.xs %}{% if zz.clone() > 0 %}{% endif %}{% endfor %}"),
    (Live, "{% for zz in self.xs %}{% else %}{{ zz }}{% endfor %}", ""),
    (Live, "{% for zz in zz %}{% endfor %}", "{% for zz in self.xs %}{% endfor %}"),
    (Live, "{% match self.o %}{% when Some(zz) %}{% else %}{{ zz }}{% endmatch %}", "{% match self.o %}{% when Some(zz) %}{% if zz.clone() > 0 %}{% endif %}{% else %}{% endmatch %}"),
    (Live, "{% match self.o %}{% when Some(zz) %}{% else %}{% endmatch %}{{ zz }}", ""),
    (Live, "{% filter upper %}{% let zz = \"\" %}{% endfilter %}{{ zz }}", "{% filter upper %}{% let zz = \"\" %}{{ zz }}{% endfilter %}"),
    (LiveTop, "{% macro zz(yy) %}{% endmacro %}{% call zz(1) %}{{ yy }}", ""),
    (LiveTop, "{% macro zz() %}{% let yy = \"\" %}{% endmacro %}{% call zz() %}{{ yy }}", "{% macro zz() %}{% let yy = \"\" %}{{ yy }}{% endmacro %}{% call zz() %}"),
    (LiveTop, "{% block zz %}{% let yy = \"\" %}{% endblock %}{{ yy }}", "{% block zz %}{% let yy = \"\" %}{{ yy }}{% endblock %}"),
    (LiveTop, "{% let yy = \"\" %}{% block zz %}{{ yy }}{% endblock %}", "{% let yy = \"\" %}{{ yy }}{% block zz %}{% endblock %}"),
    (Live, "{{ zz }}{% let zz = \"\" %}", "{% let zz = \"\" %}{{ zz }}"),
    (Live, "{% let zz %}{{ zz }}", ""),
    (Live, "{% let zz %}{% if self.b %}{% let zz = \"\" %}{% endif %}{{ zz }}", "{% let zz %}{% if self.b %}{% let zz = \"\" %}{% else %}{% let zz = \"\" %}{% endif %}{{ zz }}"),
    (Live, "{% let 1 = self.i %}", "{% let zz = self.i %}"),
];

#[derive(Clone, Debug)]
struct Spot {
    file: usize,
    /// the how many-th spot of the file
    k: usize,
    top: bool,
    in_loop: bool,
    in_branch: bool,
    in_block: bool,
    in_macro: bool,
    in_filter: bool,
}

/// All places between nodes, in a fixed order. `at`: inserts a node at this place.
fn walk(nodes: &mut Vec<Nd>, cx: &Spot, k: &mut usize, out: &mut Vec<Spot>, at: Option<(usize, &Nd)>) {
    let mut insert = None;
    let n = nodes.len();
    for i in 0..=n {
        if let Some((want, _)) = at {
            if want == *k {
                insert = Some(i);
            }
        }
        out.push(Spot { k: *k, ..cx.clone() });
        *k += 1;
        if i == n {
            break;
        }
        let inner = Spot { top: false, in_branch: false, ..cx.clone() };
        match &mut nodes[i] {
            Nd::If(cs, _) => {
                for c in cs {
                    walk(&mut c.body, &Spot { in_branch: true, ..inner.clone() }, k, out, at);
                }
            }
            Nd::For { body, els, .. } => {
                walk(body, &Spot { in_branch: true, in_loop: true, ..inner.clone() }, k, out, at);
                if let Some((_, e)) = els {
                    walk(e, &Spot { in_branch: true, ..inner.clone() }, k, out, at);
                }
            }
            Nd::Match { arms, .. } => {
                for a in arms {
                    walk(&mut a.2, &Spot { in_branch: true, ..inner.clone() }, k, out, at);
                }
            }
            Nd::Block { body, .. } => walk(body, &Spot { in_block: true, ..inner.clone() }, k, out, at),
            Nd::Macro { body, .. } => walk(body, &Spot { in_macro: true, ..inner.clone() }, k, out, at),
            Nd::Filter { body, .. } => walk(body, &Spot { in_filter: true, ..inner.clone() }, k, out, at),
            _ => {}
        }
    }
    if let (Some(i), Some((_, n))) = (insert, at) {
        nodes.insert(i, n.clone());
    }
}

fn spots(p: &mut Project, file: usize) -> Vec<Spot> {
    let cx = Spot { file, k: 0, top: true, in_loop: false, in_branch: false, in_block: false, in_macro: false, in_filter: false };
    let mut out = vec![];
    walk(&mut p.files[file].nodes, &cx, &mut 0, &mut out, None);
    out
}

fn mentioned(nodes: &[Nd], out: &mut Vec<usize>) {
    for n in nodes {
        match n {
            Nd::Include(_, _, f) | Nd::Import(_, _, _, f) | Nd::Extends(_, f) => out.push(*f),
            _ => {}
        }
        for c in n.children() {
            mentioned(c, out);
        }
    }
}

/// Every file that is read when this one is derived.
pub fn reachable(p: &Project, file: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![file];
    while let Some(f) = todo.pop() {
        if seen.insert(f) {
            mentioned(&p.files[f].nodes, &mut todo);
        }
    }
    seen
}

fn templates(s: &mut Src) -> Option<Prog> {
    let pr = Profile { fuel: 7, depth: 3, raw: 0, comment: 0, call: 1, include: 1, block: 2, filters: 5, ws: 0, ..Default::default() };
    let w = World { chain: 3, blocks: 2, libs: 1, macros: 1, shared: 1, here: 1, inline: true, dirs: true, ctx: true };
    let mut g = Gen::new(s, pr);
    let chain = world(&mut g, &w);
    let mut p = std::mem::take(&mut g.p);
    let leaf = *chain.last().unwrap();
    let root = chain[0];
    let read = reachable(&p, leaf);
    let mut all = vec![];
    for f in &read {
        all.extend(spots(&mut p, *f));
    }
    let (at, bad, good) = DEFECTS[s.below(DEFECTS.len())];
    let live = |x: &Spot| x.file == root && !x.in_macro && (chain.len() == 1 || !x.in_block);
    all.retain(|x| match at {
        Any => true,
        Plain => !x.in_branch,
        Top => x.top,
        NoLoop => !x.in_loop,
        Live => live(x) && !x.in_loop,
        LiveLoop => live(x) && x.in_loop,
        LiveTop => live(x) && x.top,
        LiveNested => live(x) && !x.top,
        Child => x.top && chain[1..].contains(&x.file),
    });
    if all.is_empty() {
        return None;
    }
    let spot = all[s.below(all.len())].clone();
    let broken = s.chance(80);
    let src = Nd::Src(if broken { bad } else { good }.to_string());
    let cx = Spot { file: spot.file, k: 0, top: true, in_loop: false, in_branch: false, in_block: false, in_macro: false, in_filter: false };
    walk(&mut p.files[spot.file].nodes, &cx, &mut 0, &mut vec![], Some((spot.k, &src)));
    let setup = Setup { entries: vec![Entry { file: leaf, block: None, of: None }], instances: 1, ..Default::default() };
    let mut prog = finish(build(s, &mut p, &setup)?, &[], 0);
    prog.nontrivial = true;
    prog.tags = vec![if broken { "defect" } else { "without_defect" }];
    if broken {
        prog.expect = Expect::CompileError;
    }
    Some(prog)
}

/// A valid set of files with two defects, maybe in different files.
pub fn two_defects(s: &mut Src) -> Option<Prog> {
    let pr = Profile { fuel: 7, depth: 3, raw: 0, comment: 0, call: 1, include: 1, block: 2, filters: 5, ws: 0, ..Default::default() };
    let w = World { chain: 3, blocks: 2, libs: 2, macros: 1, shared: 2, here: 2, inline: true, dirs: true, ctx: true };
    let mut g = Gen::new(s, pr);
    let chain = world(&mut g, &w);
    let mut p = std::mem::take(&mut g.p);
    let leaf = *chain.last().unwrap();
    let read = reachable(&p, leaf);
    let mut seen = BTreeSet::new();
    for _ in 0..2 {
        let mut all = vec![];
        for f in &read {
            all.extend(spots(&mut p, *f));
        }
        // those that only show when all files have been read are the most interesting ones
        let (bad, top) = match s.chance(50) {
            true => (s.of(&["{% if self.b %}{% block yy %}{% endblock %}{% block yy %}{% endblock %}{% endif %}", "{% if self.b %}{% macro zz() %}{% endmacro %}{% endif %}", "{% block xx %}{% import \"no.html\" as x %}{% endblock %}"]), true),
            false => (DEFECTS[s.below(DEFECTS.len())].1, false),
        };
        all.retain(|x| x.top || !top);
        if all.is_empty() {
            return None;
        }
        let spot = all[s.below(all.len())].clone();
        let src = Nd::Src(bad.to_string());
        let cx = Spot { file: spot.file, k: 0, top: true, in_loop: false, in_branch: false, in_block: false, in_macro: false, in_filter: false };
        walk(&mut p.files[spot.file].nodes, &cx, &mut 0, &mut vec![], Some((spot.k, &src)));
        seen.insert(spot.file);
    }
    let setup = Setup { entries: vec![Entry { file: leaf, block: None, of: None }], instances: 0, ..Default::default() };
    let mut prog = finish(build(s, &mut p, &setup)?, &[], 0);
    prog.nontrivial = seen.len() > 1;
    prog.tags = vec![if seen.len() > 1 { "two_files" } else { "one_file" }];
    Some(prog)
}

/// Changes of a valid template that make it invalid.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Edit {
    DropArg,
    AddArg,
    NoMacro,
    NoScope,
    NoFilter,
    SameBlock,
    NoFile,
    CyclicExtends,
    TwoExtends,
    CyclicInclude,
    Recursion,
    SuperOfFirst,
}
use Edit::*;

impl Edit {
    fn name(self) -> &'static str {
        match self {
            DropArg => "argument_dropped",
            AddArg => "argument_added",
            NoMacro => "macro_missing",
            NoScope => "import_missing",
            NoFilter => "filter_missing",
            SameBlock => "block_twice",
            NoFile => "file_missing",
            CyclicExtends => "extends_cycle",
            TwoExtends => "extends_twice",
            CyclicInclude => "include_cycle",
            Recursion => "macro_recursion",
            SuperOfFirst => "super_of_first",
        }
    }
}

const EDITS: &[Edit] = &[
    DropArg, AddArg, NoMacro, NoScope, NoFilter, SameBlock, NoFile, CyclicExtends, TwoExtends, CyclicInclude, Recursion, SuperOfFirst,
];

/// What the changes depend on.
struct Edited {
    /// names of the blocks of this file which are looked at
    blocks: Vec<String>,
    /// code is generated for the content of these blocks, outside of all blocks only if `open`
    live: BTreeSet<String>,
    open: bool,
    /// the file is the last of a chain that defines these blocks
    first: BTreeSet<String>,
    /// targets of calls and includes that were found
    calls: Vec<(Option<String>, String)>,
    includes: Vec<usize>,
    pick: usize,
}

/// Applies the change at the `at`-th place that allows it, or counts these places.
fn edit(nodes: &mut Vec<Nd>, kind: Edit, live: bool, inner: bool, x: &mut Edited, k: &mut usize, at: Option<usize>) {
    for n in nodes {
        let fits = match (&*n, kind) {
            (Nd::Call { args, .. }, DropArg) => live && !args.is_empty(),
            (Nd::Call { .. }, AddArg | NoMacro | NoScope) => live,
            (Nd::Call { scope, name, .. }, Recursion) => {
                if live {
                    x.calls.push((scope.clone(), name.clone()));
                }
                false
            }
            (Nd::Include(_, _, f), CyclicInclude) => {
                if live {
                    x.includes.push(*f);
                }
                false
            }
            (Nd::Filter { .. }, NoFilter) => live,
            (Nd::Text(_), SameBlock) => !inner && !x.blocks.is_empty(),
            (Nd::Include(..) | Nd::Import(..) | Nd::Extends(..), NoFile) => true,
            _ => false,
        };
        if fits {
            if at == Some(*k) {
                match n {
                    Nd::Call { args, .. } if kind == DropArg => {
                        let i = x.pick % args.len();
                        args.remove(i);
                    }
                    Nd::Call { args, .. } if kind == AddArg => args.insert(0, (None, Ex::Var("self".into()))),
                    Nd::Call { name, .. } if kind == NoMacro => name.push_str("zz"),
                    Nd::Call { scope, .. } => *scope = Some("zz".into()),
                    Nd::Filter { filters, .. } => {
                        let i = x.pick % filters.len();
                        filters[i].0 = "nosuchfilter".into();
                    }
                    Nd::Text(_) => *n = Nd::Src(format!("{{% block {} %}}{{% endblock %}}", x.blocks[x.pick % x.blocks.len()])),
                    Nd::Include(_, p, _) | Nd::Import(_, p, _, _) | Nd::Extends(p, _) => p.insert_str(0, "no"),
                    _ => {}
                }
            }
            *k += 1;
        }
        match n {
            Nd::If(cs, _) => cs.iter_mut().for_each(|c| edit(&mut c.body, kind, live, inner, x, k, at)),
            Nd::For { body, els, .. } => {
                edit(body, kind, live, inner, x, k, at);
                if let Some((_, e)) = els {
                    edit(e, kind, live, inner, x, k, at);
                }
            }
            Nd::Match { arms, .. } => arms.iter_mut().for_each(|a| edit(&mut a.2, kind, live, inner, x, k, at)),
            Nd::Block { name, body, .. } => {
                let live = x.live.contains(name);
                if kind == SuperOfFirst && live && x.first.contains(name) {
                    if at == Some(*k) {
                        body.push(Nd::Super(Tag::default()));
                    }
                    *k += 1;
                }
                edit(body, kind, live, inner, x, k, at)
            }
            Nd::Macro { body, .. } => edit(body, kind, false, true, x, k, at),
            Nd::Filter { body, .. } => edit(body, kind, live, true, x, k, at),
            _ => {}
        }
    }
}

fn block_names(nodes: &[Nd], nested: bool, out: &mut Vec<String>) {
    for n in nodes {
        match n {
            Nd::Block { name, body, .. } => {
                out.push(name.clone());
                if nested {
                    block_names(body, nested, out);
                }
            }
            // blocks are not looked for in there
            Nd::Macro { .. } | Nd::Filter { .. } => {}
            _ => n.children().into_iter().for_each(|c| block_names(c, nested, out)),
        }
    }
}

/// The file and the position of the definition of a macro.
fn definition(p: &Project, file: usize, scope: &Option<String>, name: &str) -> Option<(usize, usize)> {
    let file = match scope {
        None => file,
        Some(s) => p.files[file].nodes.iter().rev().find_map(|n| match n {
            Nd::Import(_, _, a, f) if a == s => Some(*f),
            _ => None,
        })?,
    };
    let i = p.files[file].nodes.iter().rposition(|n| matches!(n, Nd::Macro { name: m, .. } if m == name))?;
    Some((file, i))
}

fn edits(s: &mut Src) -> Option<Prog> {
    let pr = Profile { fuel: 8, depth: 3, raw: 0, comment: 0, call: 4, include: 3, block: 3, filter_block: 2, filters: 5, ws: 0, ..Default::default() };
    let w = World { chain: 3, blocks: 3, libs: 2, macros: 2, shared: 2, here: 1, inline: true, dirs: true, ctx: true };
    let mut g = Gen::new(s, pr);
    let chain = world(&mut g, &w);
    let mut p = std::mem::take(&mut g.p);
    let leaf = *chain.last().unwrap();
    let root = chain[0];
    let broken = s.chance(85);
    let mut tag = "without_defect";
    if broken {
        let kind = s.of(EDITS);
        tag = kind.name();
        // code is generated for the last definition of every block of the root
        let names: Vec<Vec<String>> = chain
            .iter()
            .map(|f| {
                let mut out = vec![];
                block_names(&p.files[*f].nodes, true, &mut out);
                out
            })
            .collect();
        let file = match kind {
            SameBlock | NoFile => {
                let read: Vec<usize> = reachable(&p, leaf).into_iter().collect();
                read[s.below(read.len())]
            }
            _ => chain[s.below(chain.len())],
        };
        let (mut blocks, mut rendered) = (vec![], vec![]);
        block_names(&p.files[file].nodes, true, &mut blocks);
        block_names(&p.files[root].nodes, false, &mut rendered);
        let place = chain.iter().position(|f| *f == file);
        let live = rendered.iter().filter(|b| place == names.iter().rposition(|n| n.contains(b))).cloned().collect();
        let first = rendered.iter().filter(|_| place == Some(0)).cloned().collect();
        let mut x = Edited { blocks, live, first, open: file == root, calls: vec![], includes: vec![], pick: s.below(60) };
        let mut k = 0;
        let open = x.open;
        edit(&mut p.files[file].nodes, kind, open, false, &mut x, &mut k, None);
        match kind {
            CyclicExtends => {
                let named: Vec<usize> = chain.iter().copied().filter(|f| !p.files[*f].path.is_empty()).collect();
                let f = *named.get(x.pick % named.len().max(1))?;
                let path = p.files[f].path.clone();
                p.files[root].nodes.insert(0, Nd::Extends(path, f));
            }
            TwoExtends => {
                let f = *chain[1..].get(x.pick % chain[1..].len().max(1))?;
                let nodes = &mut p.files[f].nodes;
                let at = nodes.iter().position(|n| matches!(n, Nd::Extends(..)))?;
                let again = nodes[at].clone();
                let to = s.below(nodes.len() + 1);
                nodes.insert(to, again);
            }
            CyclicInclude => {
                let f = *x.includes.get(x.pick % x.includes.len().max(1))?;
                let file = &mut p.files[f];
                if file.nodes.iter().any(|n| matches!(n, Nd::Extends(..))) {
                    return None;
                }
                let again = Nd::Include(Tag::default(), file.path.clone(), f);
                let to = s.below(file.nodes.len() + 1);
                file.nodes.insert(to, again);
            }
            Recursion => {
                let (scope, name) = x.calls.get(x.pick % x.calls.len().max(1))?.clone();
                let (f, i) = definition(&p, file, &scope, &name)?;
                if let Nd::Macro { params, body, .. } = &mut p.files[f].nodes[i] {
                    let args = params.iter().map(|_| (None, Ex::Var("self".into()))).collect();
                    let to = s.below(body.len() + 1);
                    body.insert(to, Nd::Call { tag: Tag::default(), scope: None, name, args });
                }
            }
            _ if k == 0 => return None,
            _ => {
                let at = s.below(k);
                let mut n = 0;
                edit(&mut p.files[file].nodes, kind, open, false, &mut x, &mut n, Some(at));
            }
        }
    }
    // the model cannot render a broken one
    let setup = Setup { entries: vec![Entry { file: leaf, block: None, of: None }], instances: !broken as usize, ..Default::default() };
    let mut prog = finish(build(s, &mut p, &setup)?, &[], 0);
    prog.nontrivial = true;
    prog.tags = vec![tag];
    if broken {
        prog.expect = Expect::CompileError;
    }
    Some(prog)
}

/// A struct with the given attributes, files relative to the manifest directory, and what it renders.
fn small(attrs: &str, files: &[(&str, &str)], out: Option<&str>) -> Prog {
    let expect = match out {
        Some(o) => Expect::Outputs(vec![("T".to_string(), o.to_string())]),
        None => Expect::CompileError,
    };
    let code = format!(
        "use askama::Template;\nuse crate::p::{{self, filters}};\n{attrs}\nstruct T {{ i: i64, s: &'static str }}\npub fn run(o: &mut Vec<String>) {{ o.push(p::render(&T {{ i: 7, s: \"<\" }})) }}\n"
    );
    let files = files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    Prog { files, code, expect, nontrivial: true, tags: vec![if out.is_some() { "without_defect" } else { "defect" }], deps: vec![] }
}

/// Attributes: the defective list, the list without the defect.
const ATTRS: &[(&str, &str)] = &[
    ("source = \"{{ s }}\"", "source = \"{{ s }}\", ext = \"html\""),
    ("ext = \"html\"", "source = \"{{ s }}\", ext = \"html\""),
    ("", "source = \"{{ s }}\", ext = \"html\""),
    ("source = \"{{ s }}\", path = \"CASEDIR/a.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/a.html\", source = \"{{ s }}\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/a.html\", path = \"CASEDIR/a.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/nope.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR\"", "path = \"CASEDIR/a.html\""),
    ("path = \"\"", "path = \"CASEDIR/a.html\""),
    ("path = CASEDIR", "path = \"CASEDIR/a.html\""),
    ("path = 1", "path = \"CASEDIR/a.html\""),
    ("path", "path = \"CASEDIR/a.html\""),
    ("path(\"CASEDIR/a.html\")", "path = \"CASEDIR/a.html\""),
    ("\"CASEDIR/a.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/a.html\" ext = \"html\"", "path = \"CASEDIR/a.html\", ext = \"html\""),
    ("path = \"CASEDIR/a.unknown\"", "path = \"CASEDIR/a.unknown\", escape = \"html\""),
    ("path = \"CASEDIR/a.html\", escape = \"nope\"", "path = \"CASEDIR/a.html\", escape = \"xml\""),
    ("path = \"CASEDIR/a.html\", escape = \"Html\"", "path = \"CASEDIR/a.html\", escape = \"html\""),
    ("source = \"{{ s }}\", ext = \"HTML\"", "source = \"{{ s }}\", ext = \"htm\""),
    ("path = \"CASEDIR/a.html\", escape = 1", "path = \"CASEDIR/a.html\", escape = \"html\""),
    ("source = \"{{ s }}\", ext = \"nope\"", "source = \"{{ s }}\", ext = \"xml\""),
    ("source = \"{{ s }}\", ext = 'x'", "source = \"{{ s }}\", ext = \"xml\""),
    ("source = 1, ext = \"html\"", "source = \"{{ s }}\", ext = \"html\""),
    ("source = \"{{ s }\", ext = \"html\"", "source = \"{{ s }}\", ext = \"html\""),
    ("path = \"CASEDIR/a.html\", syntax = \"nope\"", "path = \"CASEDIR/a.html\", syntax = \"default\""),
    ("path = \"CASEDIR/a.html\", syntax = 1", "path = \"CASEDIR/a.html\", syntax = \"default\""),
    ("path = \"CASEDIR/a.html\", config = \"nope.toml\"", "path = \"CASEDIR/a.html\", config = \"CASEDIR.toml\""),
    ("path = \"CASEDIR/a.html\", config = true", "path = \"CASEDIR/a.html\", config = \"CASEDIR.toml\""),
    ("path = \"CASEDIR/a.html\", whitespace = \"nope\"", "path = \"CASEDIR/a.html\", whitespace = \"minimize\""),
    ("path = \"CASEDIR/a.html\", whitespace = \"Minimize\"", "path = \"CASEDIR/a.html\", whitespace = \"preserve\""),
    ("path = \"CASEDIR/a.html\", whitespace = \"\"", "path = \"CASEDIR/a.html\", whitespace = \"suppress\""),
    ("path = \"CASEDIR/a.html\", print = \"nope\"", "path = \"CASEDIR/a.html\", print = \"none\""),
    ("path = \"CASEDIR/a.html\", print = 1", "path = \"CASEDIR/a.html\", print = \"none\""),
    ("path = \"CASEDIR/a.html\", block = \"zz\"", "path = \"CASEDIR/b.html\", block = \"zz\""),
    ("path = \"CASEDIR/b.html\", block = \"yy\"", "path = \"CASEDIR/b.html\", block = \"zz\""),
    ("path = \"CASEDIR/c.html\", block = \"yy\"", "path = \"CASEDIR/c.html\", block = \"zz\""),
    ("path = \"CASEDIR/b.html\", block = 1", "path = \"CASEDIR/b.html\", block = \"zz\""),
    ("path = \"CASEDIR/a.html\", nope = \"x\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/a.html\", a::b = \"x\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/a.html\", escaping = \"html\"", "path = \"CASEDIR/a.html\", escape = \"html\""),
    ("path = \"CASEDIR/x1.html\"", "path = \"CASEDIR/b.html\""),
    ("path = \"CASEDIR/x2.html\"", "path = \"CASEDIR/c.html\""),
    ("path = \"CASEDIR/x3.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/x4.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/x5.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/x6.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/x7.html\"", "path = \"CASEDIR/c.html\""),
    ("path = \"CASEDIR/x8.html\"", "path = \"CASEDIR/c.html\""),
    ("path = \"CASEDIR/r2.html\"", "path = \"CASEDIR/r1.html\""),
    ("path = \"CASEDIR/sub/up.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/sub/up2.html\"", "path = \"CASEDIR/a.html\""),
    ("path = \"CASEDIR/c.html\", block = \"self\"", "path = \"CASEDIR/c.html\", block = \"zz\""),
];

fn attributes(s: &mut Src) -> Option<Prog> {
    let (bad, good) = ATTRS[s.below(ATTRS.len())];
    let broken = s.chance(80);
    let mut files = vec![
        ("templates/CASEDIR/a.html".to_string(), "{{ s }}".to_string()),
        ("templates/CASEDIR/a.unknown".to_string(), "{{ s }}".to_string()),
        ("templates/CASEDIR/b.html".to_string(), "{% block zz %}{{ s }}{% endblock %}".to_string()),
        ("templates/CASEDIR/c.html".to_string(), "{% extends \"b.html\" %}{% block zz %}{{ s }}{% endblock %}".to_string()),
        // cycles
        ("templates/CASEDIR/x1.html".to_string(), "{% extends \"x1.html\" %}".to_string()),
        ("templates/CASEDIR/x2.html".to_string(), "{% extends \"x3.html\" %}{% block zz %}{{ s }}{% endblock %}".to_string()),
        ("templates/CASEDIR/x3.html".to_string(), "{% extends \"x2.html\" %}".to_string()),
        ("templates/CASEDIR/x4.html".to_string(), "{% include \"x4.html\" %}".to_string()),
        ("templates/CASEDIR/x5.html".to_string(), "{% if i == 7 %}{% include \"x6.html\" %}{% endif %}".to_string()),
        ("templates/CASEDIR/x6.html".to_string(), "{{ s }}{% for x in [1] %}{% include \"x5.html\" %}{% endfor %}".to_string()),
        ("templates/CASEDIR/x7.html".to_string(), "{% extends \"b.html\" %}{% block zz %}{{ s }}{% include \"x7.html\" %}{% endblock %}".to_string()),
        ("templates/CASEDIR/x8.html".to_string(), "{% import \"x9.html\" as y %}{% macro m() %}{% call y::m() %}{% endmacro %}{% call m() %}".to_string()),
        ("templates/CASEDIR/x9.html".to_string(), "{% import \"x8.html\" as y %}{% macro m() %}{% call y::m() %}{% endmacro %}".to_string()),
        ("templates/CASEDIR/r0.html".to_string(), "{% block a %}{{ s }}{% endblock %}".to_string()),
        ("templates/CASEDIR/r1.html".to_string(), "{% extends \"r0.html\" %}{% block b %}{% block a %}{{ s }}{% endblock %}{% endblock %}".to_string()),
        ("templates/CASEDIR/r2.html".to_string(), "{% extends \"r1.html\" %}{% block a %}{% block b %}{% call super() %}{% endblock %}{% endblock %}".to_string()),
        ("templates/CASEDIR/sub/up.html".to_string(), "{% include \"../sub/up.html\" %}".to_string()),
        ("templates/CASEDIR/sub/up2.html".to_string(), "{% extends \"../sub/up2.html\" %}".to_string()),
        (format!("{DIR}.toml"), String::new()),
    ];
    let attrs = if broken { bad } else { good };
    // only what is needed is kept
    if s.chance(50) {
        files.retain(|f| f.0.ends_with(".toml") || !f.0.contains("/x") || attrs.contains("/x"));
    }
    let (pre, post) = match s.below(4) {
        0 => ("", "\n#[allow(dead_code)]"),
        1 => ("#[doc = \"x\"]\n", ""),
        _ => ("", ""),
    };
    let files: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let attrs = format!("#[derive(Template)]\n{pre}#[template({attrs})]{post}");
    Some(small(&attrs, &files, if broken { None } else { Some("&lt;") }))
}

/// Configurations: defective, without the defect.
const CONFIGS: &[(&str, &str)] = &[
    ("[general", "[general]"),
    ("general = 1", "[general]"),
    ("[general]\ndirs = \"templates\"", "[general]\ndirs = [\"templates\"]"),
    ("[general]\ndirs = [\"nosuchdir\"]", "[general]\ndirs = [\"nosuchdir\", \"templates\"]"),
    ("[general]\ndirs = []", "[general]"),
    ("[general]\ndefault_syntax = \"foo\"", "[general]\ndefault_syntax = \"default\""),
    ("[general]\ndefault_syntax = 1", "[general]\ndefault_syntax = \"default\""),
    ("[general]\nwhitespace = \"nope\"", "[general]\nwhitespace = \"minimize\""),
    ("[general]\nwhitespace = \"Suppress\"", "[general]\nwhitespace = \"suppress\""),
    ("[[syntax]]\nname = \"a\"\n[[syntax]]\nname = \"a\"", "[[syntax]]\nname = \"a\"\n[[syntax]]\nname = \"d\""),
    ("[[syntax]]\nname = \"default\"\nblock_start = \"<%\"", "[[syntax]]\nname = \"other\"\nblock_start = \"<%\""),
    ("[[syntax]]\nblock_start = \"<%\"", "[[syntax]]\nname = \"other\"\nblock_start = \"<%\""),
    ("[syntax]\nname = \"a\"", "[[syntax]]\nname = \"a\""),
    ("[[escaper]]\nextensions = [\"js\"]", "[[escaper]]\npath = \"askama::Text\"\nextensions = [\"js\"]"),
    ("[[escaper]]\npath = \"askama::Text\"", "[[escaper]]\npath = \"askama::Text\"\nextensions = [\"js\"]"),
    ("[[escaper]]\npath = \"askama::Text\"\nextensions = \"js\"", "[[escaper]]\npath = \"askama::Text\"\nextensions = [\"js\"]"),
    ("[[escaper]]\npath = \"p::NoSuchEscaper\"\nextensions = [\"html\"]", "[[escaper]]\npath = \"askama::Html\"\nextensions = [\"html\"]"),
];

const DELIMS: &[&str] = &["block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"];

fn configs(s: &mut Src) -> Option<Prog> {
    let broken = s.chance(80);
    let toml = match s.below(3) {
        0 => {
            let (bad, good) = CONFIGS[s.below(CONFIGS.len())];
            if broken { bad } else { good }.to_string()
        }
        1 => {
            // one invalid delimiter
            let d = s.below(6);
            let bad = ["<", "", "%", "{ ", " {{", "< %", "<\\t%", "<\u{a0}%", "==", "&&", "||", "<=", ">>", "<<", "!=", "..", "..="];
            let good = [["<%", "%>"], ["<<<", ">>>"], ["((", "))"], ["{?", "?}"]][s.below(4)];
            let v = match broken {
                true => bad[s.below(bad.len())],
                false => good[d % 2],
            };
            format!("[[syntax]]\nname = \"a\"\n{} = \"{v}\"\n", DELIMS[d])
        }
        _ => {
            // one start delimiter that is a prefix of another
            let d = [0, 2, 4];
            let i = s.below(3);
            let j = (i + 1 + s.below(2)) % 3;
            let x = s.of(&["<%", "<<<", "((", "\u{e9}!"]);
            let more = s.of(&["", "=", "#", "<"]);
            match broken {
                true => format!("[[syntax]]\nname = \"a\"\n{} = \"{x}\"\n{} = \"{x}{more}\"\n", DELIMS[d[i]], DELIMS[d[j]]),
                false => format!("[[syntax]]\nname = \"a\"\n{} = \"{x}\"\n{} = \"!{x}{more}\"\n", DELIMS[d[i]], DELIMS[d[j]]),
            }
        }
    };
    let attrs = format!("#[derive(Template)]\n#[template(path = \"{DIR}/a.html\", config = \"{DIR}.toml\")]");
    let files = [("templates/CASEDIR/a.html", "{{ s }}"), ("CASEDIR.toml", toml.as_str())];
    Some(small(&attrs, &files, if broken { None } else { Some("&lt;") }))
}

pub fn e2e() -> Vec<E2e> {
    vec![
        E2e { name: "templates", quick: 4000, batch: 50, gen: templates, mode: Mode::Plain, web: None },
        E2e { name: "edits", quick: 2400, batch: 50, gen: edits, mode: Mode::Plain, web: None },
        E2e { name: "attributes", quick: 800, batch: 50, gen: attributes, mode: Mode::Plain, web: None },
        E2e { name: "configs", quick: 600, batch: 50, gen: configs, mode: Mode::Plain, web: None },
    ]
}
