//! Typed generator of templates.
use super::ast::*;
use crate::source::{mix, Src};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Int,
    Us,
    Bool,
    Str,
    /// an owned string: can be printed, but not copied
    Own,
    Ch,
    Opt,
    VI,
    VS,
    VP,
    VT,
    P,
    T,
    E,
    /// `[i64; 3]`
    Ar,
}

/// The fields every generated struct has.
pub const FIELDS: &[(&str, Ty)] = &[
    ("i", Ty::Int),
    ("j", Ty::Int),
    ("n", Ty::Int),
    ("u", Ty::Us),
    ("b", Ty::Bool),
    ("c", Ty::Bool),
    ("s", Ty::Str),
    ("w", Ty::Str),
    ("t", Ty::Own),
    ("ch", Ty::Ch),
    ("o", Ty::Opt),
    ("q", Ty::Opt),
    ("xs", Ty::VI),
    ("ys", Ty::VI),
    ("ss", Ty::VS),
    ("ps", Ty::VP),
    ("ts", Ty::VT),
    ("p", Ty::P),
    ("tup", Ty::T),
    ("e", Ty::E),
    ("ar", Ty::Ar),
];

pub fn rust_type(t: Ty) -> &'static str {
    match t {
        Ty::Int => "i64",
        Ty::Us => "usize",
        Ty::Bool => "bool",
        Ty::Str => "&'static str",
        Ty::Own => "String",
        Ty::Ch => "char",
        Ty::Opt => "Option<i64>",
        Ty::VI => "Vec<i64>",
        Ty::VS => "Vec<&'static str>",
        Ty::VP => "Vec<P>",
        Ty::VT => "Vec<(i64, &'static str)>",
        Ty::P => "P",
        Ty::T => "(i64, &'static str)",
        Ty::E => "E",
        Ty::Ar => "[i64; 3]",
    }
}

const STRS: &[&str] = &[
    "a", "", "b", "<b>", "a&b", "\"q\"", "x'y", "é<", "{}", " sp ", "Ab cd", "&lt;", "{{s}}", "%s", "line\nbreak", "日本 x", "a\\b", "'\"><&",
];

/// Values of all fields; the instance 0 is the simplest.
pub fn instance(seed: usize) -> BTreeMap<String, Val> {
    let mut z = seed as u64;
    let mut r = move |n: usize| {
        if seed == 0 {
            return 0;
        }
        z = z.wrapping_add(1 << 20);
        (mix(z) >> 33) as usize % n
    };
    let mut m = BTreeMap::new();
    for (name, ty) in FIELDS {
        let int = |r: &mut dyn FnMut(usize) -> usize| [0, 1, 2, 3, 5, -1, -4, 7, 12][r(9)];
        let string = |r: &mut dyn FnMut(usize) -> usize| STRS[r(STRS.len())].to_string();
        let v = match ty {
            Ty::Int => Val::I(int(&mut r)),
            Ty::Us => Val::U(r(5)),
            Ty::Bool => Val::B(r(2) == 1),
            Ty::Str | Ty::Own => Val::S(string(&mut r)),
            Ty::Ch => Val::C(['a', '<', 'é', '"'][r(4)]),
            Ty::Opt => Val::O(match r(3) {
                0 => None,
                _ => Some(int(&mut r)),
            }),
            Ty::VI => Val::L((0..[2, 0, 1, 3, 4][r(5)]).map(|_| Val::I(int(&mut r))).collect()),
            Ty::VS => Val::L((0..[2, 0, 1, 3][r(4)]).map(|_| Val::S(string(&mut r))).collect()),
            Ty::VP => Val::L((0..[1, 0, 2, 3][r(4)]).map(|_| Val::P(int(&mut r), string(&mut r))).collect()),
            Ty::VT => Val::L((0..[1, 0, 2, 3][r(4)]).map(|_| Val::T(vec![Val::I(int(&mut r)), Val::S(string(&mut r))])).collect()),
            Ty::P => Val::P(int(&mut r), string(&mut r)),
            Ty::T => Val::T(vec![Val::I(int(&mut r)), Val::S(string(&mut r))]),
            Ty::E => Val::E(match r(3) {
                0 => Ev::A,
                1 => Ev::B(int(&mut r)),
                _ => Ev::C(int(&mut r), string(&mut r)),
            }),
            Ty::Ar => Val::L((0..3).map(|_| Val::I(int(&mut r))).collect()),
        };
        m.insert(name.to_string(), v);
    }
    m
}

/// The Rust expression of a value.
pub fn rust_value(v: &Val, ty: Ty) -> String {
    match (v, ty) {
        (Val::I(x), _) => format!("{x}i64"),
        (Val::U(x), _) => format!("{x}usize"),
        (Val::B(x), _) => x.to_string(),
        (Val::C(x), _) => format!("{x:?}"),
        (Val::S(x), Ty::Own) => format!("String::from({x:?})"),
        (Val::S(x), _) => format!("{x:?}"),
        (Val::O(None), _) => "None".into(),
        (Val::O(Some(x)), _) => format!("Some({x}i64)"),
        (Val::L(v), ty) => {
            let inner = v.iter().map(|x| rust_value(x, Ty::Str)).collect::<Vec<_>>().join(", ");
            match ty {
                Ty::Ar => format!("[{inner}]"),
                _ => format!("vec![{inner}]"),
            }
        }
        (Val::T(v), _) => format!("({})", v.iter().map(|x| rust_value(x, Ty::Str)).collect::<Vec<_>>().join(", ")),
        (Val::P(n, s), _) => format!("P {{ n: {n}, s: {s:?} }}"),
        (Val::E(Ev::A), _) => "E::A".into(),
        (Val::E(Ev::B(x)), _) => format!("E::B({x})"),
        (Val::E(Ev::C(x, y)), _) => format!("E::C {{ x: {x}, y: {y:?} }}"),
        (Val::Unit, _) => "()".into(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Texts {
    Plain,
    /// much whitespace
    Ws,
    /// delimiter look-alikes, braces, quotes, …
    Nasty,
}

/// How often the generator uses what.
#[derive(Clone, Debug)]
pub struct Profile {
    pub text: usize,
    pub expr: usize,
    pub comment: usize,
    pub raw: usize,
    pub ifs: usize,
    pub fors: usize,
    pub matches: usize,
    pub lets: usize,
    pub call: usize,
    pub include: usize,
    pub block: usize,
    pub filter_block: usize,
    pub brk: usize,
    /// percentage of filters in displayed expressions
    pub filters: usize,
    /// percentage of explicit whitespace controls
    pub ws: usize,
    /// weight of `loop.*`
    pub loop_vars: usize,
    /// percentage of calls with effects
    pub effects: usize,
    /// percentage of failing filters
    pub fails: usize,
    /// filters that do not exist
    pub without: &'static [&'static str],
    pub texts: Texts,
    pub names: &'static [&'static str],
    pub fuel: usize,
    pub depth: usize,
    pub macros: usize,
    pub imports: usize,
}

/// Directories of generated files.
pub const DIRS: &[&str] = &["", "/sub", "/sub/deep", "/other"];

pub const NAMES: &[&str] = &["a", "k", "x", "i", "s", "n", "b", "o", "val", "j"];

impl Default for Profile {
    fn default() -> Self {
        Profile {
            text: 5,
            expr: 6,
            comment: 1,
            raw: 1,
            ifs: 2,
            fors: 2,
            matches: 1,
            lets: 2,
            call: 0,
            include: 0,
            block: 0,
            filter_block: 1,
            brk: 1,
            filters: 20,
            ws: 10,
            loop_vars: 2,
            effects: 0,
            fails: 0,
            without: &[],
            texts: Texts::Plain,
            names: NAMES,
            fuel: 22,
            depth: 4,
            macros: 0,
            imports: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Bind {
    pub ty: Ty,
    /// known to be a value and not a reference
    pub rank0: bool,
}

#[derive(Clone, Debug)]
pub struct MacroSig {
    pub name: String,
    pub params: Vec<(String, Ty)>,
}

/// What a file offers.
#[derive(Clone, Debug, Default)]
pub struct FileInfo {
    pub dir: String,
    pub macros: Vec<MacroSig>,
    pub imports: Vec<(String, usize)>,
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub pr: Profile,
    pub p: Project,
    pub infos: Vec<FileInfo>,
    pub scopes: Vec<Vec<(String, Bind)>>,
    /// only fields that no variable shadows may be used by name
    pub stable_only: bool,
    pub in_loop: bool,
    pub loop_var: bool,
    pub fuel: usize,
    pub cur: usize,
    pub effects: i64,
    pub decls: usize,
    /// blocks that may be defined here: indices of names; a block only contains blocks with higher indices
    pub blocks: Vec<usize>,
    pub block_min: usize,
    /// the current block has a definition in an ancestor
    pub can_super: bool,
    /// blocks that an ancestor of the current file defines
    pub ancestor_blocks: Vec<usize>,
    /// files that can be included anywhere: they use nothing but fields that are never shadowed
    pub includes: Vec<usize>,
    /// how many files may be made up where they are included
    pub here: usize,
    pub in_macro: bool,
    /// variables that must not be assigned again
    pub frozen: Vec<String>,
    pub ext: &'static str,
    pub in_filter_block: bool,
    /// every file that this one is rendered from has a macro `cm` and an import `ci` with another one
    pub ctx_call: bool,
}

fn lit_i(x: i64) -> Ex {
    Ex::Lit(Val::I(x), format!("{x}i64"))
}

fn lit_u(x: usize, suffix: bool) -> Ex {
    Ex::Lit(Val::U(x), if suffix { format!("{x}usize") } else { x.to_string() })
}

pub fn lit_s(x: &str) -> Ex {
    let src: String = x
        .chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            '\n' => "\\n".to_string(),
            c => c.to_string(),
        })
        .collect();
    Ex::Lit(Val::S(x.to_string()), format!("\"{src}\""))
}

fn bx(e: Ex) -> Box<Ex> {
    Box::new(e)
}

/// An attribute of the result of a call or an index (not usable as macro argument).
pub fn attr_of_complex(e: &Ex) -> bool {
    match e {
        Ex::Attr(x, _) => !matches!(**x, Ex::Var(_) | Ex::Slf(_)) && (!matches!(**x, Ex::Attr(..)) || attr_of_complex(x)),
        _ => false,
    }
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, pr: Profile) -> Gen<'a> {
        let fuel = pr.fuel;
        Gen {
            s,
            pr,
            p: Project::default(),
            infos: vec![],
            scopes: vec![vec![]],
            stable_only: false,
            in_loop: false,
            loop_var: false,
            fuel,
            cur: 0,
            effects: 0,
            decls: 0,
            blocks: vec![],
            block_min: 0,
            can_super: false,
            ancestor_blocks: vec![],
            includes: vec![],
            here: 0,
            ctx_call: false,
            in_macro: false,
            frozen: vec![],
            ext: "html",
            in_filter_block: false,
        }
    }

    /// Adds a file. The path is relative to the template directory; empty: inline.
    pub fn add_file(&mut self, path: &str) -> usize {
        self.p.files.push(File { path: path.to_string(), nodes: vec![] });
        let dir = path.rsplit_once('/').map(|x| x.0).unwrap_or("").to_string();
        self.infos.push(FileInfo { dir, ..Default::default() });
        self.p.files.len() - 1
    }

    pub fn tag(&mut self) -> Tag {
        let ws = self.pr.ws;
        let mut one = || match self.s.chance(ws) {
            true => self.s.of(b"-~+"),
            false => 0,
        };
        Tag { l: one(), r: one() }
    }

    // ---- names ----

    fn lookup(&self, n: &str) -> Option<Bind> {
        self.scopes.iter().rev().flat_map(|s| s.iter().rev()).find(|b| b.0 == n).map(|b| b.1.clone())
    }

    /// Everything of this type that can be named: expression and whether it is known to be a value.
    fn names_of(&self, ty: Ty) -> Vec<(Ex, bool)> {
        let mut v = vec![];
        let mut done: Vec<&str> = vec![];
        for (n, b) in self.scopes.iter().rev().flat_map(|s| s.iter().rev()) {
            if done.contains(&n.as_str()) {
                continue;
            }
            done.push(n);
            if b.ty == ty {
                v.push((Ex::Var(n.clone()), b.rank0));
            }
        }
        for (n, t) in FIELDS {
            if *t != ty {
                continue;
            }
            let usable = self.lookup(n).is_none() && (!self.stable_only || !(self.pr.names.contains(n) || ["n", "s", "x", "y"].contains(n)));
            v.push((if usable { Ex::Var(n.to_string()) } else { Ex::Slf(n.to_string()) }, true));
        }
        v
    }

    /// A variable or field of this type (of any rank).
    fn named(&mut self, ty: Ty) -> (Ex, bool) {
        let v = self.names_of(ty);
        let k = self.s.below(v.len());
        v[k].clone()
    }

    /// A variable or field as a value.
    fn named0(&mut self, ty: Ty) -> Ex {
        let (e, rank0) = self.named(ty);
        let explicit = !rank0 || (ty != Ty::Opt && self.s.chance(5));
        match explicit {
            true => Ex::Meth(bx(e), "v", vec![]),
            false => e,
        }
    }

    pub fn name(&mut self) -> String {
        for _ in 0..20 {
            let n = self.s.pick(self.pr.names).to_string();
            if !self.frozen.contains(&n) {
                return n;
            }
        }
        "fresh".into()
    }

    fn bind(&mut self, n: &str, ty: Ty, rank0: bool) {
        self.scopes.last_mut().unwrap().push((n.to_string(), Bind { ty, rank0 }));
    }

    fn effect_id(&mut self) -> Ex {
        self.effects += 1;
        lit_i(self.effects)
    }

    fn effectful(&mut self) -> bool {
        let pct = self.pr.effects;
        self.s.chance(pct)
    }

    // ---- expressions ----

    pub fn int0(&mut self, d: usize) -> Ex {
        if self.effectful() {
            return match self.s.weighted(&[12, 3, 1, 2]) {
                0 => {
                    let id = self.effect_id();
                    let x = if d == 0 { lit_i(1) } else { self.int0(d - 1) };
                    Ex::Call("p::lg", vec![id, x])
                }
                1 => match self.s.below(4) {
                    0 => Ex::Call("p::tick", vec![]),
                    1 => Ex::Call("crate::p::tick", vec![]),
                    2 => Ex::Call("p::tickm!", vec![]),
                    // the arguments of Rust macros are copied
                    _ => {
                        let id = self.effect_id();
                        let x = self.s.below(9) as i64;
                        Ex::Call("crate::p::lgm!", vec![id, lit_i(x)])
                    }
                },
                2 => {
                    let a = self.named0(Ty::Int);
                    let id = self.effect_id();
                    let i = self.s.below(2);
                    let b = self.named0(Ty::Int);
                    let call = Ex::Call("p::lg", vec![id, b]);
                    let es = if i == 0 { vec![call, a] } else { vec![a, call] };
                    let k = self.s.below(2);
                    Ex::Attr(bx(Ex::Tup(es)), k.to_string())
                }
                _ => {
                    let key = self.log_key();
                    let (x, _) = self.named(Ty::Ar);
                    Ex::Meth(bx(Ex::Group(bx(Ex::Idx(bx(x), bx(key))))), "v", vec![])
                }
            };
        }
        let w: &[usize] = if d == 0 { &[4, 5, 1, 1] } else { &[3, 5, 1, 1, 5, 1, 2, 1, 1, 1] };
        match self.s.weighted(w) {
            0 => {
                let x = self.s.of(&[1, 0, 2, 3, 7, 10]);
                lit_i(x)
            }
            1 => self.named0(Ty::Int),
            2 => {
                let (x, _) = self.named(Ty::P);
                Ex::Attr(bx(x), "n".into())
            }
            3 => {
                let (x, rank0) = self.named(Ty::T);
                match rank0 {
                    true => Ex::Attr(bx(x), "0".into()),
                    false => self.named0(Ty::Int),
                }
            }
            4 => {
                let op = self.s.of(&["+", "-", "*", "%", "/", "|", "&", "^", "<<", ">>"]);
                let a = self.int0(d - 1);
                let b = match op {
                    "%" | "/" => {
                        let x = self.s.of(&[2, 3, -2, 7]);
                        match x < 0 {
                            true => Ex::Un("-", bx(lit_i(-x))),
                            false => lit_i(x),
                        }
                    }
                    "<<" | ">>" => {
                        let x = self.s.below(4) as i64;
                        lit_i(x)
                    }
                    _ => self.int0(d - 1),
                };
                Ex::Bin(op, bx(a), bx(b))
            }
            5 => {
                let x = self.int0(d - 1);
                Ex::Un(self.s.of(&["-", "!"]), bx(x))
            }
            6 => {
                let f = self.s.of(&["p::add", "p::twice", "crate::p::add"]);
                let mut args = vec![self.int_arg(d - 1)];
                if f != "p::twice" {
                    let a = self.int_arg(d - 1);
                    args.push(a);
                }
                Ex::Call(f, args)
            }
            7 => {
                let (x, _) = self.named(Ty::Opt);
                let dflt = self.s.below(5) as i64;
                Ex::Meth(bx(x), "unwrap_or", vec![lit_i(dflt)])
            }
            8 => {
                let x = self.int_arg(d - 1);
                let a = self.int_arg(d - 1);
                Ex::Filt(bx(x), "plus".into(), vec![a])
            }
            _ => {
                let x = self.int0(d - 1);
                Ex::Group(bx(x))
            }
        }
    }

    /// A valid index of an array that records that it was used.
    fn log_key(&mut self) -> Ex {
        let id = self.effect_id();
        let i = self.s.below(3) as i64;
        Ex::Call("p::lgu", vec![id, lit_i(i)])
    }

    /// An integer that is passed to a function that accepts references.
    fn int_arg(&mut self, d: usize) -> Ex {
        match self.s.below(4) {
            0 => self.named(Ty::Int).0,
            1 if self.pr.effects == 0 => {
                let i = self.s.below(3);
                let (x, _) = self.named(Ty::Ar);
                Ex::Idx(bx(x), bx(lit_u(i, false)))
            }
            _ => self.int0(d),
        }
    }

    pub fn us0(&mut self, d: usize) -> Ex {
        match self.s.weighted(&[2, 3, if self.loop_var { 6 } else { 0 }, 2, if d > 0 { 2 } else { 0 }]) {
            0 => {
                let x = self.s.below(4);
                lit_u(x, true)
            }
            1 => self.named0(Ty::Us),
            2 => Ex::Loop(self.s.of(&["index", "index0"])),
            3 => {
                let ty = self.s.of(&[Ty::VI, Ty::VS, Ty::Str, Ty::Own]);
                let (x, _) = self.named(ty);
                Ex::Meth(bx(x), "len", vec![])
            }
            _ => {
                let a = self.us0(d - 1);
                match self.s.below(3) {
                    0 => {
                        let b = self.us0(d - 1);
                        Ex::Bin("+", bx(a), bx(b))
                    }
                    1 => Ex::Bin("%", bx(a), bx(lit_u(2, true))),
                    _ => Ex::Bin("*", bx(a), bx(lit_u(3, true))),
                }
            }
        }
    }

    pub fn str0(&mut self) -> Ex {
        match self.s.weighted(&[3, 5, 1, 1]) {
            0 => {
                let x = self.s.pick(STRS).to_string();
                lit_s(&x)
            }
            1 => self.named0(Ty::Str),
            2 => {
                let (x, _) = self.named(Ty::P);
                Ex::Attr(bx(x), "s".into())
            }
            _ => {
                let (x, rank0) = self.named(Ty::T);
                match rank0 {
                    true => Ex::Attr(bx(x), "1".into()),
                    false => self.named0(Ty::Str),
                }
            }
        }
    }

    pub fn bool0(&mut self, d: usize) -> Ex {
        if self.effectful() {
            let id = self.effect_id();
            let x = if d == 0 { self.named(Ty::Int).0 } else { self.int0(d - 1) };
            return Ex::Call("p::lgb", vec![id, x]);
        }
        let deep = if d > 0 { 3 } else { 0 };
        match self.s.weighted(&[1, 4, 4, 1, 1, if self.loop_var { self.pr.loop_vars } else { 0 }, deep, deep, 1, deep.min(1)]) {
            0 => {
                let x = self.s.chance(50);
                Ex::Lit(Val::B(x), x.to_string())
            }
            1 => self.named0(Ty::Bool),
            2 => {
                let op = self.s.of(&["==", "<", "!=", ">", "<=", ">="]);
                let d = d.saturating_sub(1);
                let (a, b) = match self.s.below(3) {
                    0 => (self.int0(d), self.int0(d)),
                    1 => (self.us0(d), self.us0(d)),
                    _ => (self.str0(), self.str0()),
                };
                Ex::Bin(op, bx(a), bx(b))
            }
            3 => {
                let (x, _) = self.named(Ty::Opt);
                Ex::Meth(bx(x), self.s.of(&["is_some", "is_none"]), vec![])
            }
            4 => {
                let ty = self.s.of(&[Ty::VI, Ty::VS, Ty::Str, Ty::Own]);
                let (x, _) = self.named(ty);
                Ex::Meth(bx(x), "is_empty", vec![])
            }
            5 => Ex::Loop(self.s.of(&["first", "last"])),
            6 => {
                let op = self.s.of(&["&&", "||"]);
                let a = self.bool0(d - 1);
                let b = self.bool0(d - 1);
                Ex::Bin(op, bx(a), bx(b))
            }
            7 => {
                let x = self.bool0(d - 1);
                Ex::Un("!", bx(x))
            }
            8 => {
                let a = self.named0(Ty::Ch);
                let c = self.s.of(&['a', '<', 'é']);
                Ex::Bin("==", bx(a), bx(Ex::Lit(Val::C(c), format!("'{c}'"))))
            }
            _ => {
                let x = self.bool0(d - 1);
                Ex::Group(bx(x))
            }
        }
    }

    /// Something that owns its string.
    fn own(&mut self, d: usize) -> Ex {
        match self.s.below(3) {
            0 => {
                let a = self.operand(d.saturating_sub(1));
                let b = self.operand(d.saturating_sub(1));
                Ex::Call("p::cat", vec![a, b])
            }
            _ => {
                let x = self.operand(d.saturating_sub(1));
                let e = self.string_filters(x, d);
                // the results of many built-in filters borrow their input
                match &e {
                    Ex::Filt(_, f, _) if matches!(f.as_str(), "wrap" | "rev" | "two" | "tag" | "failon") => e,
                    _ => Ex::Filt(bx(e), "wrap".into(), vec![]),
                }
            }
        }
    }

    /// Something displayable without a filter.
    pub fn operand(&mut self, d: usize) -> Ex {
        if self.pr.effects > 0 && self.s.chance(12) {
            match self.s.below(3) {
                0 => {
                    let key = self.log_key();
                    let (x, _) = self.named(Ty::Ar);
                    return Ex::Idx(bx(x), bx(key));
                }
                1 => {
                    let id = self.effect_id();
                    // not too many parentheses
                    let x = match self.s.chance(50) {
                        true => self.str0(),
                        false => self.int0(d.min(1)),
                    };
                    return Ex::Try(bx(Ex::Call("p::lgr", vec![id, x])));
                }
                _ if self.in_macro => {}
                _ => {
                    let f = self.s.of(&["<{}>", "{}) ({}"]);
                    let es = f.matches("{}").map(|_| {
                        let id = self.effect_id();
                        let x = self.s.below(9) as i64;
                        Ex::Call("crate::p::lg", vec![id, lit_i(x)])
                    }).collect();
                    return Ex::Format(f, es);
                }
            }
        }
        match self.s.weighted(&[4, 4, 2, 1, 1, 1, if self.loop_var { self.pr.loop_vars } else { 0 }, 2, 1, 1, 1, 1]) {
            0 => self.str0(),
            1 => self.int0(d.min(2)),
            2 => self.named(Ty::Own).0,
            3 => self.bool0(d.min(1)),
            4 => self.us0(1),
            5 => match self.s.chance(50) {
                true => self.named(Ty::Ch).0,
                false => {
                    let c = self.s.of(&['a', '<', '&', '"', '>', 'é', ' ']);
                    Ex::Lit(Val::C(c), format!("'{c}'"))
                }
            },
            6 => match self.s.below(4) {
                0 => {
                    let n = 1 + self.s.below(3);
                    let es = (0..n).map(|_| lit_s(["A", "B", "<"][self.s.below(3)])).collect();
                    Ex::Cycle(es)
                }
                1 => {
                    let n = 1 + self.s.below(3);
                    let es = (0..n).map(|_| self.int0(1)).collect();
                    Ex::Cycle(es)
                }
                _ => Ex::Loop(self.s.of(&["index", "index0", "first", "last"])),
            },
            // references are displayable, too
            7 => {
                let ty = self.s.of(&[Ty::Int, Ty::Str, Ty::Bool, Ty::Us]);
                self.named(ty).0
            }
            8 => {
                let i = self.s.below(3);
                let (x, _) = self.named(Ty::Ar);
                Ex::Idx(bx(x), bx(lit_u(i, false)))
            }
            9 => {
                let x = self.int_arg(1);
                Ex::Meth(bx(Ex::Lit(Val::Unit, "self".into())), "dbl", vec![x])
            }
            10 => {
                let x = self.operand(d.saturating_sub(1));
                let fails = self.pr.fails;
                let call = match self.s.chance(fails) {
                    true => {
                        let y = self.str0();
                        Ex::Call("p::nay", vec![x, y])
                    }
                    false => Ex::Call("p::okay", vec![x]),
                };
                Ex::Try(bx(call))
            }
            // the arguments are Rust code: fields need `self`, and macro parameters are not necessarily variables
            _ => {
                let f = self.s.of(&["<{}>", "{}) ({}", "\"{}\\", "a{} {} {}"]);
                let es = f.matches("{}").map(|_| {
                    let fields: Vec<&str> = FIELDS.iter().filter(|f| matches!(f.1, Ty::Int | Ty::Str | Ty::Own | Ty::Ch | Ty::Bool | Ty::Us)).map(|f| f.0).collect();
                    let vars: Vec<Ex> = [Ty::Int, Ty::Str, Ty::Own].iter().flat_map(|t| self.names_of(*t)).map(|x| x.0).filter(|e| matches!(e, Ex::Var(n) if self.lookup(n).is_some())).collect();
                    match self.s.chance(50) && !vars.is_empty() && !self.in_macro {
                        true => vars[self.s.below(vars.len())].clone(),
                        false => Ex::Slf(self.s.of(&fields).to_string()),
                    }
                }).collect();
                Ex::Format(f, es)
            }
        }
    }

    /// Applies at least one filter that takes and returns strings.
    fn string_filters(&mut self, x: Ex, d: usize) -> Ex {
        let mut e = x;
        let n = 1 + self.s.below(3);
        for _ in 0..n {
            let d = d.saturating_sub(1);
            let fails = self.pr.fails;
            if self.s.chance(fails) {
                e = match self.s.below(4) {
                    0 => Ex::Filt(bx(e), "fail".into(), vec![]),
                    1 if self.pr.effects == 0 => Ex::Filt(bx(e.clone()), "failon".into(), vec![e]),
                    _ => {
                        let a = self.str0();
                        Ex::Filt(bx(e), "failon".into(), vec![a])
                    }
                };
                continue;
            }
            let json = if matches!(e, Ex::Filt(..)) { 0 } else { 1 };
            let (f, args): (&str, Vec<Ex>) = match self.s.weighted(&[3, 3, 2, 2, 3, 1, 1, 1, 1, 1, 1, 2, 1, 1, json]) {
                0 => ("wrap", vec![]),
                1 => (self.s.of(&["upper", "uppercase", "lower", "lowercase", "capitalize"]), vec![]),
                2 => ("tag", vec![self.operand(d)]),
                3 => ("two", vec![self.operand(d), self.operand(d)]),
                4 => ("rev", vec![]),
                5 => ("trim", vec![]),
                6 => (self.s.of(&["urlencode", "urlencode_strict"]), vec![]),
                7 => ("linebreaksbr", vec![]),
                // the width only means something to values that care
                8 if !matches!(e, Ex::Filt(..)) => ("fmt", vec![lit_s(self.s.pick(&["<{}>", "{:>6}"]))]),
                8 => ("fmt", vec![lit_s("<{}>")]),
                9 => ("e", vec![]),
                11 => (self.s.of(&["title", "linebreaks", "paragraphbreaks"]), vec![]),
                12 => ("center", vec![lit_u(self.s.below(9), false)]),
                13 => ("indent", vec![lit_u(self.s.below(4), false)]),
                14 => (self.s.of(&["json", "tojson"]), vec![]),
                _ => ("truncate", vec![lit_u(self.s.below(8), false)]),
            };
            e = match self.pr.without.contains(&f) {
                true => Ex::Filt(bx(e), "lower".into(), vec![]),
                false => Ex::Filt(bx(e), f.into(), args),
            };
        }
        // `e` in the end would be escaped again in other contexts
        if matches!(&e, Ex::Filt(_, f, _) if f == "e") {
            e = Ex::Filt(bx(e), "wrap".into(), vec![]);
        }
        e
    }

    /// An expression to print.
    pub fn displayed(&mut self, d: usize) -> Ex {
        let pct = self.pr.filters;
        if !self.s.chance(pct) {
            return self.operand(d);
        }
        match self.s.weighted(&[6, 3, 2, 2, 1, 1]) {
            0 => {
                let x = self.operand(d);
                self.string_filters(x, d)
            }
            1 => {
                let mut x = self.operand(d);
                if self.s.chance(40) {
                    x = self.string_filters(x, d);
                }
                match self.s.below(5) {
                    0 | 1 => Ex::Filt(bx(x), "safe".into(), vec![]),
                    2 => Ex::Filt(bx(x), "e".into(), vec![]),
                    3 => Ex::Filt(bx(x), "escape".into(), vec![]),
                    _ => {
                        let m = self.s.pick(&["html", "none"]).to_string();
                        Ex::Filt(bx(x), "escape".into(), vec![lit_s(&m)])
                    }
                }
            }
            2 => {
                let x = match self.s.weighted(&[5, 3]) {
                    0 => {
                        let ty = self.s.of(&[Ty::VI, Ty::VS]);
                        self.named(ty).0
                    }
                    _ => {
                        let n = 1 + self.s.below(3);
                        Ex::Arr((0..n).map(|_| self.int0(1)).collect())
                    }
                };
                if self.s.chance(15) && !self.pr.without.contains(&"json") {
                    return Ex::Filt(bx(x), self.s.of(&["json", "tojson"]).into(), vec![]);
                }
                let sep = self.s.pick(&[", ", "<", "", "|"]).to_string();
                Ex::Filt(bx(x), "join".into(), vec![lit_s(&sep)])
            }
            3 => {
                // numbers stay numbers
                let x = self.int0(1);
                let x = Ex::Meth(bx(x), "v", vec![]);
                let f = match self.pr.without.contains(&"abs") {
                    true => "wordcount",
                    false => self.s.of(&["abs", "abs", "into_isize", "into_f64"]),
                };
                let x = Ex::Filt(bx(x), f.into(), vec![]);
                match f == "abs" && self.s.chance(50) {
                    true => {
                        let a = self.int_arg(1);
                        Ex::Filt(bx(x), "plus".into(), vec![a])
                    }
                    false => x,
                }
            }
            4 => {
                let x = self.operand(d);
                Ex::Filt(bx(x), "wordcount".into(), vec![])
            }
            _ => {
                let f = self.s.pick(&["{}", "{} & {}", "{1}-{0}"]).to_string();
                let n = if f == "{}" { 1 } else { 2 };
                let args = (0..n).map(|_| self.operand(1)).collect();
                Ex::Filt(bx(lit_s(&f)), "format".into(), args)
            }
        }
    }

    // ---- patterns ----

    /// A pattern for a value of this type that always matches, binding some names.
    fn irrefutable(&mut self, ty: Ty, rank0: bool) -> Pat {
        match ty {
            Ty::T if self.s.chance(60) => {
                let a = self.fresh_name(&[]);
                let b = self.fresh_name(&[&a]);
                let x = self.bind_pat(a, Ty::Int, rank0);
                let y = self.bind_pat(b, Ty::Str, rank0);
                Pat::Tup(vec![x, y])
            }
            Ty::P if self.s.chance(50) => {
                let a = if self.s.chance(50) { "n".to_string() } else { self.fresh_name(&[]) };
                let b = match self.s.chance(50) && a != "s" {
                    true => "s".to_string(),
                    false => self.fresh_name(&[&a]),
                };
                let x = self.bind_pat(a, Ty::Int, rank0);
                let y = self.bind_pat(b, Ty::Str, rank0);
                Pat::P(Box::new(x), Box::new(y))
            }
            ty => {
                let n = self.fresh_name(&[]);
                self.bind_pat(n, ty, rank0)
            }
        }
    }

    fn fresh_name(&mut self, not: &[&String]) -> String {
        for _ in 0..20 {
            let n = self.name();
            if !not.contains(&&n) {
                return n;
            }
        }
        "other".into()
    }

    fn bind_pat(&mut self, n: String, ty: Ty, rank0: bool) -> Pat {
        if self.s.chance(8) {
            return Pat::Wild;
        }
        if self.frozen.contains(&n) {
            return Pat::Wild;
        }
        self.bind(&n, ty, rank0);
        Pat::Name(n)
    }

    fn lit_pat(&mut self, ty: Ty) -> Pat {
        let one = |s: &mut Src| match ty {
            Ty::Int => {
                let x = s.of(&[0, 1, 2, 3, 5, 7]);
                Pat::Lit(Val::I(x), x.to_string())
            }
            Ty::Us => {
                let x = s.below(4);
                Pat::Lit(Val::U(x), x.to_string())
            }
            Ty::Bool => {
                let x = s.chance(50);
                Pat::Lit(Val::B(x), x.to_string())
            }
            Ty::Ch => {
                let x = s.of(&['a', '<', 'é']);
                Pat::Lit(Val::C(x), format!("'{x}'"))
            }
            _ => {
                let x = s.pick(STRS).to_string();
                match lit_s(&x) {
                    Ex::Lit(v, src) => Pat::Lit(v, src),
                    _ => unreachable!(),
                }
            }
        };
        let n = 1 + self.s.weighted(&[6, 2, 1]);
        let mut ps: Vec<Pat> = (0..n).map(|_| one(self.s)).collect();
        match n {
            1 => ps.pop().unwrap(),
            _ => Pat::Or(ps),
        }
    }

    /// A pattern for (a reference to) a value of this type.
    fn refutable(&mut self, ty: Ty) -> Pat {
        match ty {
            Ty::Opt => match self.s.weighted(&[5, 2, 1]) {
                0 => {
                    let n = self.name();
                    let p = self.bind_pat(n, Ty::Int, false);
                    Pat::Some(Box::new(p))
                }
                1 => {
                    let x = self.s.of(&[0, 1, 2, 3, 5]);
                    let l = Pat::Some(Box::new(Pat::Lit(Val::I(x), x.to_string())));
                    match self.s.chance(30) {
                        true => Pat::Or(vec![l, Pat::None]),
                        false => l,
                    }
                }
                _ => Pat::None,
            },
            Ty::E => match self.s.below(3) {
                0 => Pat::EA,
                1 => {
                    let n = self.name();
                    let p = match self.s.chance(25) {
                        true => Pat::Lit(Val::I(1), "1".into()),
                        false => self.bind_pat(n, Ty::Int, false),
                    };
                    Pat::EB(Box::new(p))
                }
                _ => {
                    let a = if self.s.chance(50) { "x".to_string() } else { self.fresh_name(&[]) };
                    let b = self.fresh_name(&[&a]);
                    let x = self.bind_pat(a, Ty::Int, false);
                    let y = self.bind_pat(b, Ty::Str, false);
                    Pat::EC(Box::new(x), Box::new(y), self.s.chance(30))
                }
            },
            Ty::T => {
                let first = match self.s.chance(50) {
                    true => self.lit_pat(Ty::Int),
                    false => {
                        let n = self.name();
                        self.bind_pat(n, Ty::Int, false)
                    }
                };
                // alternatives are only possible at the top
                let first = match first {
                    Pat::Or(ps) => ps[0].clone(),
                    p => p,
                };
                let second = match &first {
                    Pat::Name(n) => {
                        let m = self.fresh_name(&[&n.clone()]);
                        self.bind_pat(m, Ty::Str, false)
                    }
                    _ => {
                        let m = self.name();
                        self.bind_pat(m, Ty::Str, false)
                    }
                };
                Pat::Tup(vec![first, second])
            }
            ty => self.lit_pat(ty),
        }
    }

    /// The scrutinee of `match` or `if let`.
    /// In `if let`, `&&` and `||` are not part of the expression.
    fn scrutinee(&mut self, if_let: bool) -> (Ex, Ty) {
        match self.s.weighted(&[4, 4, 3, 3, 2, 1, 1]) {
            0 => {
                if self.effectful() {
                    let id = self.effect_id();
                    let x = self.int0(0);
                    return (Ex::Call("p::lgo", vec![id, x]), Ty::Opt);
                }
                (self.named(Ty::Opt).0, Ty::Opt)
            }
            1 => (self.named(Ty::E).0, Ty::E),
            2 => {
                let x = match self.s.chance(60) {
                    true => self.named0(Ty::Int),
                    false => self.int0(1),
                };
                (x, Ty::Int)
            }
            3 => (self.named0(Ty::Str), Ty::Str),
            4 => {
                let x = match self.s.chance(40) {
                    true => self.named0(Ty::Bool),
                    false => match self.bool0(1) {
                        e @ Ex::Bin("&&" | "||", ..) if if_let => Ex::Group(bx(e)),
                        e => e,
                    },
                };
                (x, Ty::Bool)
            }
            5 => (self.named0(Ty::Ch), Ty::Ch),
            _ => match self.s.chance(50) {
                true => (self.named(Ty::T).0, Ty::T),
                false => {
                    let (a, b) = (self.named0(Ty::Int), self.named0(Ty::Str));
                    (Ex::Tup(vec![a, b]), Ty::T)
                }
            },
        }
    }

    // ---- nodes ----

    pub fn add_text(&mut self, t: String) -> usize {
        self.p.texts.push(t);
        self.p.texts.len() - 1
    }

    pub fn text_src(&mut self) -> String {
        const PLAIN: &[&str] = &["T", "hello", "x y", "1, 2", "<b>", "a-b", ".", "é", "\"q\"", " and ", "\n", "; "];
        const WS: &[&str] = &[" ", "\n", "  ", "\t", "\r\n", " \n ", "a", "x y", " b", "c ", "\nd", "e\n", "\u{a0}", "\n\n", ".", "\u{b}"];
        const NASTY: &[&str] = &[
            "a", "{", "}", "{}", "{0}", "}}", "%}", "#}", "{ {", "{expr0}", "\"", "\\", "\\n", "'", "%", "#", "{:?}", "\0", "\u{1b}", "é", "日本", "🦀",
            "\u{202e}", "\u{301}", "\n", "r#\"", "\"#", "%s", "$", "{{{", "{%", "{#", "/*", "*/", "//", "<script>", "&amp;", "\u{feff}", "\\u{41}", "\t", " ",
            "endraw", "\r", "\u{7f}", "{ raw }",
        ];
        let (pool, max): (&[&str], usize) = match self.pr.texts {
            Texts::Plain => (PLAIN, 2),
            Texts::Ws => (WS, 4),
            Texts::Nasty => (NASTY, 6),
        };
        let n = 1 + self.s.below(max);
        (0..n).map(|_| self.s.pick(pool)).collect()
    }

    fn text(&mut self) -> Nd {
        let t = self.text_src();
        Nd::Text(self.add_text(t))
    }

    /// Ends some files with newlines and the like.
    pub fn ending(&mut self, nodes: &mut Vec<Nd>) {
        if self.pr.texts == Texts::Plain || !self.s.chance(35) {
            return;
        }
        let t = self.s.of(&["\r\n", "\n\n", "\n", "\r", " \n", "\r\n\n"]);
        match nodes.last() {
            Some(Nd::Text(id)) => self.p.texts[*id].push_str(t),
            _ => {
                let id = self.add_text(t.into());
                nodes.push(Nd::Text(id));
            }
        }
    }

    /// A list of nodes in a scope of its own.
    pub fn body(&mut self, depth: usize, max: usize) -> Vec<Nd> {
        self.scopes.push(vec![]);
        let b = self.list(depth, max);
        self.scopes.pop();
        b
    }

    pub fn list(&mut self, depth: usize, max: usize) -> Vec<Nd> {
        let mut v: Vec<Nd> = vec![];
        let n = match self.s.chance(92) {
            true => 1 + self.s.below(max),
            false => 0,
        };
        for _ in 0..n {
            if self.fuel == 0 {
                break;
            }
            self.fuel -= 1;
            let after_text = matches!(v.last(), Some(Nd::Text(_)));
            self.node(depth, after_text, &mut v);
            if matches!(v.last(), Some(Nd::Break(_) | Nd::Continue(_))) && self.s.chance(70) {
                break;
            }
        }
        v
    }

    fn node(&mut self, depth: usize, after_text: bool, out: &mut Vec<Nd>) {
        let pr = self.pr.clone();
        let deep = |x: usize| if depth > 0 { x } else { 0 };
        let macros = self.callable();
        let w = [
            if after_text { 0 } else { pr.text },
            pr.expr,
            pr.comment,
            pr.raw,
            deep(pr.ifs),
            deep(pr.fors),
            deep(pr.matches),
            pr.lets,
            if macros.is_empty() { 0 } else { pr.call },
            if self.includes.is_empty() && self.here == 0 { 0 } else { pr.include },
            if self.blocks.iter().any(|b| *b >= self.block_min) && !self.in_filter_block && !self.in_macro { deep(pr.block) } else { 0 },
            deep(pr.filter_block),
            if self.in_loop { pr.brk } else { 0 },
            if self.can_super { pr.block } else { 0 },
        ];
        match self.s.weighted(&w) {
            0 if !after_text => out.push(self.text()),
            2 => {
                let c = self.s.pick(&["note", "{% x %}", "{{ y }}", "a \" b", "é", "-- ++", "", "\u{1} b \u{2}", "\u{1}\u{1} b \u{2}\u{2} c", "\u{1} b \u{2} c \u{1} d \u{2}",
                    "\u{1}- \u{1} x \u{1} {{ y }} \u{2} \u{2} -\u{2}"]).to_string();
                let t = self.tag();
                out.push(Nd::Comment(t, c));
            }
            3 => {
                let (t, e) = (self.tag(), self.tag());
                let id = match self.s.chance(85) {
                    true => {
                        let mut x = self.text_src();
                        if self.s.chance(50) {
                            x.push_str(self.s.pick(&["{{ i }}", "{% if %}", "{# c #}", "{% raw %}", "{%", "{{"]));
                        }
                        let x = x.replace("endraw", "end");
                        Some(self.add_text(x))
                    }
                    false => None,
                };
                out.push(Nd::Raw(t, id, e));
            }
            4 => {
                let n = self.gen_if(depth - 1);
                out.push(n);
            }
            5 => {
                let n = self.gen_for(depth - 1);
                out.push(n);
            }
            6 => {
                let n = self.gen_match(depth - 1);
                out.push(n);
            }
            7 => self.gen_let(depth, out),
            8 => {
                let n = self.gen_call(&macros);
                out.push(n);
            }
            9 => {
                let n = if self.here > 0 && (self.includes.is_empty() || self.s.chance(60)) {
                    self.here -= 1;
                    let d = self.s.of(DIRS);
                    let path = format!("{}{d}/here{}.{}", crate::e2e::DIR, self.p.files.len(), self.ext);
                    self.include_here(&path, depth)
                } else {
                    let f = self.s.below(self.includes.len());
                    let f = self.includes[f];
                    self.include_of(f)
                };
                out.push(n);
            }
            10 => {
                let n = self.gen_block(depth - 1);
                out.push(n);
            }
            11 => {
                let n = self.gen_filter_block(depth - 1);
                out.push(n);
            }
            12 => {
                let t = self.tag();
                // usually under a condition
                let n = match self.s.chance(50) {
                    true => Nd::Break(t),
                    false => Nd::Continue(t),
                };
                if self.s.chance(80) {
                    let (tag, end) = (self.tag(), self.tag());
                    let c = self.bool0(1);
                    out.push(Nd::If(vec![Cond { tag, test: Some((None, c)), body: vec![n] }], end));
                } else {
                    out.push(n);
                }
            }
            13 => {
                let t = self.tag();
                out.push(Nd::Super(t));
            }
            _ => {
                let t = self.tag();
                let e = self.displayed(2);
                // the same expression again: identical ones may share their result, but not their effects
                let again = self.s.chance(if pr.effects > 0 { 40 } else { 10 });
                let copy = again.then(|| e.clone());
                out.push(Nd::Expr(t, e));
                if let Some(e) = copy {
                    for _ in 0..1 + self.s.below(2) {
                        if self.s.chance(50) {
                            let text = self.text();
                            out.push(text);
                        }
                        let t = self.tag();
                        out.push(Nd::Expr(t, e.clone()));
                    }
                }
            }
        }
    }

    fn gen_if(&mut self, depth: usize) -> Nd {
        let n = 1 + self.s.weighted(&[5, 3, 2, 1]);
        let mut cs = vec![];
        for _ in 0..n {
            let tag = self.tag();
            // the scrutinee does not see the bindings
            let test = match self.s.chance(30) {
                true => {
                    let (e, ty) = match self.scrutinee(true) {
                        (e, ty @ (Ty::Opt | Ty::E | Ty::T)) => (e, ty),
                        (e, ty) if self.s.chance(50) => (e, ty),
                        _ => (self.named(Ty::Opt).0, Ty::Opt),
                    };
                    self.scopes.push(vec![]);
                    (Some(self.refutable(ty)), e)
                }
                false => {
                    let e = self.bool0(2);
                    self.scopes.push(vec![]);
                    (None, e)
                }
            };
            let body = self.list(depth, 4);
            self.scopes.pop();
            cs.push(Cond { tag, test: Some(test), body });
        }
        if self.s.chance(50) {
            let tag = self.tag();
            let body = self.body(depth, 4);
            cs.push(Cond { tag, test: None, body });
        }
        let end = self.tag();
        Nd::If(cs, end)
    }

    fn gen_for(&mut self, depth: usize) -> Nd {
        let tag = self.tag();
        let effect = self.effectful();
        let endless = !effect && self.s.chance(4);
        let (iter, item): (Ex, Option<Ty>) = if endless {
            let a = self.s.below(4) as i64;
            let it = match self.s.chance(50) {
                true => Ex::Range(bx(Ex::Lit(Val::I(a), format!("{a}i64"))), bx(Ex::Lit(Val::Unit, String::new())), false),
                false => Ex::Call("p::endless", vec![lit_i(a)]),
            };
            (it, Some(Ty::Int))
        } else if effect {
            let id = self.effect_id();
            let n = self.s.below(4) as i64;
            (Ex::Call("p::lgv", vec![id, lit_i(n)]), Some(Ty::Int))
        } else {
            match self.s.weighted(&[6, 3, 3, 3, 3, 2, 1, 1, 2, 1]) {
                0 => (self.named(Ty::VI).0, Some(Ty::Int)),
                1 => (self.named(Ty::VS).0, Some(Ty::Str)),
                2 => (self.named(Ty::VP).0, Some(Ty::P)),
                3 => (self.named(Ty::VT).0, Some(Ty::T)),
                4 => {
                    let a = self.s.range(0, 2);
                    let incl = self.s.chance(30);
                    let b = match self.s.chance(50) {
                        true => lit_i(a + self.s.below(4) as i64),
                        false => match self.int0(1) {
                            e @ (Ex::Lit(..) | Ex::Var(_) | Ex::Slf(_) | Ex::Meth(..)) => e,
                            e => Ex::Group(bx(e)),
                        },
                    };
                    (Ex::Range(bx(lit_i(a)), bx(b), incl), Some(Ty::Int))
                }
                5 => {
                    let n = 1 + self.s.below(3);
                    match self.s.chance(60) {
                        true => (Ex::Arr((0..n).map(|_| self.int0(1)).collect()), Some(Ty::Int)),
                        false => (Ex::Arr((0..n).map(|_| self.str0()).collect()), Some(Ty::Str)),
                    }
                }
                6 => {
                    let a = self.s.below(4) as i64;
                    (Ex::Call(self.s.of(&["p::list", "p::odd"]), vec![lit_i(a)]), Some(Ty::Int))
                }
                7 => {
                    let (x, _) = self.named(Ty::VI);
                    let it = Ex::Meth(bx(x), "iter", vec![]);
                    let it = match self.s.below(3) {
                        0 => it,
                        1 => Ex::Meth(bx(it), "rev", vec![]),
                        _ => Ex::Meth(bx(it), "skip", vec![lit_u(1, false)]),
                    };
                    (it, Some(Ty::Int))
                }
                8 => {
                    let (x, _) = self.named(Ty::VS);
                    let it = Ex::Meth(bx(Ex::Meth(bx(x), "iter", vec![])), "enumerate", vec![]);
                    (it, None)
                }
                _ => (self.named(Ty::Ar).0, Some(Ty::Int)),
            }
        };
        self.scopes.push(vec![]);
        let pat = match item {
            Some(ty) => self.irrefutable(ty, false),
            None => {
                let a = self.fresh_name(&[]);
                let b = self.fresh_name(&[&a]);
                let x = self.bind_pat(a, Ty::Us, false);
                let y = self.bind_pat(b, Ty::Str, false);
                Pat::Tup(vec![x, y])
            }
        };
        let (in_loop, loop_var) = (self.in_loop, self.loop_var);
        let mut brk = true;
        let cond = match !endless && self.s.chance(25) {
            true => {
                // `loop` is not available here, and filters are not allowed in conditions
                self.loop_var = false;
                let eff = std::mem::replace(&mut self.pr.effects, 0);
                let c = match eff > 0 && self.pr.fails == 0 && self.s.chance(60) {
                    true => {
                        brk = false;
                        let id = self.effect_id();
                        let x = self.named0(Ty::Int);
                        Ex::Call("p::lgc", vec![id, x])
                    }
                    // depends on the element
                    false if self.s.chance(60) && matches!(self.scopes.last().unwrap().last(), Some((_, Bind { ty: Ty::Int | Ty::Str, .. }))) => {
                        let (n, b) = self.scopes.last().unwrap().last().unwrap().clone();
                        let x = Ex::Meth(bx(Ex::Var(n)), "v", vec![]);
                        let op = self.s.of(&["<", "!=", ">", "<=", "=="]);
                        let y = match b.ty {
                            Ty::Int => {
                                let y = self.s.of(&[1, 2, 3, 0]);
                                lit_i(y)
                            }
                            _ => self.str0(),
                        };
                        Ex::Bin(op, bx(x), bx(y))
                    }
                    false => loop {
                        let c = self.bool0(1);
                        if !has_filter(&c) {
                            break c;
                        }
                    },
                };
                self.pr.effects = eff;
                Some(c)
            }
            false => None,
        };
        self.in_loop = brk;
        self.loop_var = true;
        let mut body = self.list(depth, 4);
        if endless {
            let n = self.s.below(4);
            let test = Ex::Bin(">=", bx(Ex::Loop("index0")), bx(lit_u(n, false)));
            let (tag, end, brk) = (self.tag(), self.tag(), self.tag());
            body.insert(0, Nd::If(vec![Cond { tag, test: Some((None, test)), body: vec![Nd::Break(brk)] }], end));
        }
        self.scopes.pop();
        (self.in_loop, self.loop_var) = (in_loop, loop_var);
        let els = match self.s.chance(30) {
            true => {
                let t = self.tag();
                Some((t, self.body(depth, 3)))
            }
            false => None,
        };
        let end = self.tag();
        let iter = if self.s.chance(8) { Ex::Group(bx(iter)) } else { iter };
        Nd::For { tag, pat, iter, cond, body, els, end }
    }

    fn gen_match(&mut self, depth: usize) -> Nd {
        let tag = self.tag();
        let (ex, ty) = self.scrutinee(false);
        let n = 1 + self.s.below(3);
        let mut arms = vec![];
        for _ in 0..n {
            let t = self.tag();
            self.scopes.push(vec![]);
            let p = self.refutable(ty);
            let body = self.list(depth, 3);
            self.scopes.pop();
            arms.push((t, Some(p), body));
        }
        let t = self.tag();
        match self.s.below(4) {
            // exhaustive without else
            0 if ty == Ty::Opt => {
                let b = self.body(depth, 3);
                arms.push((t, Some(Pat::None), b));
                let t = self.tag();
                self.scopes.push(vec![]);
                let n = self.name();
                let p = self.bind_pat(n, Ty::Int, false);
                let b = self.list(depth, 3);
                self.scopes.pop();
                arms.push((t, Some(Pat::Some(Box::new(p))), b));
            }
            1 => {
                let b = self.body(depth, 3);
                arms.push((t, Some(Pat::Wild), b));
            }
            2 if !matches!(ty, Ty::Opt | Ty::E | Ty::T) => {
                self.scopes.push(vec![]);
                let n = self.name();
                let p = self.bind_pat(n, ty, false);
                let b = self.list(depth, 3);
                self.scopes.pop();
                arms.push((t, Some(p), b));
            }
            _ => {
                let b = self.body(depth, 3);
                arms.push((t, None, b));
            }
        }
        let end = self.tag();
        let gap = self.s.pick(&["", " ", "\n", "\n  "]);
        Nd::Match { tag, ex, gap, arms, end }
    }

    fn gen_let(&mut self, depth: usize, out: &mut Vec<Nd>) {
        let t = self.tag();
        match self.s.weighted(&[5, 3, 1, 1, 1, 1, if depth > 0 { 2 } else { 0 }]) {
            0 => {
                let e = self.int0(2);
                let n = self.name();
                self.bind(&n, Ty::Int, true);
                out.push(Nd::Let(t, Pat::Name(n), Some(e)));
            }
            1 => {
                let e = self.str0();
                let n = self.name();
                self.bind(&n, Ty::Str, true);
                out.push(Nd::Let(t, Pat::Name(n), Some(e)));
            }
            2 => {
                let e = self.own(2);
                let n = self.name();
                self.bind(&n, Ty::Own, true);
                out.push(Nd::Let(t, Pat::Name(n), Some(e)));
            }
            3 => {
                let e = self.bool0(2);
                let n = self.name();
                self.bind(&n, Ty::Bool, true);
                out.push(Nd::Let(t, Pat::Name(n), Some(e)));
            }
            4 => {
                // copies of references
                let ty = self.s.of(&[Ty::Int, Ty::Str, Ty::P, Ty::T, Ty::Us, Ty::Opt]);
                let (e, rank0) = self.named(ty);
                let n = self.name();
                self.bind(&n, ty, rank0);
                out.push(Nd::Let(t, Pat::Name(n), Some(e)));
            }
            5 => {
                let (e, ty, rank0) = match self.s.below(3) {
                    0 => {
                        let (e, r) = self.named(Ty::T);
                        (e, Ty::T, r)
                    }
                    1 => {
                        let (e, r) = self.named(Ty::P);
                        (e, Ty::P, r)
                    }
                    _ => {
                        let (a, b) = (self.int0(1), self.str0());
                        (Ex::Tup(vec![a, b]), Ty::T, true)
                    }
                };
                let a = self.fresh_name(&[]);
                let b = self.fresh_name(&[&a]);
                let (x, y) = (self.bind_pat(a, Ty::Int, rank0), self.bind_pat(b, Ty::Str, rank0));
                let p = match ty {
                    Ty::T => Pat::Tup(vec![x, y]),
                    _ => Pat::P(Box::new(x), Box::new(y)),
                };
                out.push(Nd::Let(t, p, Some(e)));
            }
            _ => {
                // declared first, assigned in every branch
                self.decls += 1;
                let n = format!("d{}", self.decls);
                out.push(Nd::Let(t, Pat::Name(n.clone()), None));
                if self.s.chance(40) {
                    out.push(self.text());
                }
                let int = self.s.chance(50);
                let two = self.s.chance(30);
                let mut cs = vec![];
                for k in 0..(2 + two as usize) {
                    let tag = self.tag();
                    let test = match k == 1 + two as usize {
                        true => None,
                        false => Some((None, self.bool0(1))),
                    };
                    self.scopes.push(vec![]);
                    let mut body = self.list(depth - 1, 1);
                    let e = if int { self.int0(1) } else { self.str0() };
                    let t = self.tag();
                    body.push(Nd::Let(t, Pat::Name(n.clone()), Some(e)));
                    if self.s.chance(30) {
                        let t = self.tag();
                        body.push(Nd::Expr(t, Ex::Var(n.clone())));
                    }
                    self.scopes.pop();
                    cs.push(Cond { tag, test, body });
                }
                let end = self.tag();
                out.push(Nd::If(cs, end));
                self.bind(&n, if int { Ty::Int } else { Ty::Str }, true);
            }
        }
    }

    fn gen_filter_block(&mut self, depth: usize) -> Nd {
        let tag = self.tag();
        let saved = (self.in_loop, self.in_filter_block);
        self.in_loop = false;
        self.in_filter_block = true;
        let body = self.body(depth, 4);
        (self.in_loop, self.in_filter_block) = saved;
        let n = 1 + self.s.below(2);
        let mut filters = vec![];
        for _ in 0..n {
            let fails = self.pr.fails;
            if self.s.chance(fails) {
                let a = self.str0();
                filters.push(("failon".to_string(), vec![a]));
                continue;
            }
            let (f, args): (&str, Vec<Ex>) = match self.s.below(8) {
                0 => ("upper", vec![]),
                1 => ("lower", vec![]),
                2 => ("wrap", vec![]),
                3 => ("trim", vec![]),
                4 => ("rev", vec![]),
                5 => ("tag", vec![self.operand(1)]),
                6 => ("two", vec![self.operand(1), self.operand(1)]),
                _ => ("capitalize", vec![]),
            };
            filters.push((f.to_string(), args));
        }
        if self.s.chance(40) {
            filters.push(("safe".into(), vec![]));
        }
        let end = self.tag();
        Nd::Filter { tag, filters, body, end }
    }

    /// Macros that can be called here: (scope, signature).
    fn callable(&self) -> Vec<(Option<String>, MacroSig)> {
        let info = &self.infos[self.cur];
        let mut v: Vec<(Option<String>, MacroSig)> = info.macros.iter().map(|m| (None, m.clone())).collect();
        for (scope, f) in &info.imports {
            v.extend(self.infos[*f].macros.iter().map(|m| (Some(scope.clone()), m.clone())));
        }
        if self.ctx_call && !self.in_macro {
            let sig = MacroSig { name: "cm".into(), params: vec![("cx".into(), Ty::Int)] };
            v.extend([(None, sig.clone()), (Some("ci".into()), sig)]);
        }
        v
    }

    /// Appends a call of a macro if there is one.
    pub fn call(&mut self, nodes: &mut Vec<Nd>) {
        let macros = self.callable();
        if !macros.is_empty() {
            let n = self.gen_call(&macros);
            nodes.push(n);
        }
    }

    fn gen_call(&mut self, macros: &[(Option<String>, MacroSig)]) -> Nd {
        let k = self.s.below(macros.len());
        let (scope, sig) = macros[k].clone();
        let tag = self.tag();
        let n = sig.params.len();
        // named arguments come last
        let positional = if self.s.chance(40) { self.s.below(n + 1) } else { n };
        let mut args = vec![];
        for (i, (p, ty)) in sig.params.iter().enumerate() {
            let e = self.macro_arg(*ty);
            args.push((if i >= positional { Some(p.clone()) } else { None }, e));
        }
        if self.pr.effects == 0 && args.len() > positional + 1 && self.s.chance(50) {
            args[positional..].reverse();
        }
        Nd::Call { tag, scope, name: sig.name, args }
    }

    fn macro_arg(&mut self, ty: Ty) -> Ex {
        loop {
            let e = match ty {
                Ty::Int if self.pr.effects > 0 && self.s.chance(15) => {
                    let key = self.log_key();
                    let (x, _) = self.named(Ty::Ar);
                    Ex::Idx(bx(x), bx(key))
                }
                Ty::Int => match self.s.chance(50) {
                    true => self.named(Ty::Int).0,
                    false => self.int0(2),
                },
                Ty::Us if self.loop_var && self.s.chance(60) => Ex::Loop(self.s.of(&["index", "index0"])),
                Ty::Bool if self.loop_var && self.s.chance(30) => Ex::Loop(self.s.of(&["first", "last"])),
                Ty::Str => match self.s.chance(50) {
                    true => self.named(Ty::Str).0,
                    false => self.str0(),
                },
                Ty::Bool => match self.s.chance(50) {
                    true => self.named(Ty::Bool).0,
                    false => self.bool0(1),
                },
                Ty::Own => match self.s.chance(50) {
                    true => self.named(Ty::Own).0,
                    false => self.own(2),
                },
                Ty::Us => self.us0(1),
                Ty::VI => {
                    // only fields: other lists would be moved
                    let v: Vec<(Ex, bool)> = self.names_of(Ty::VI);
                    let k = self.s.below(v.len());
                    v[k].0.clone()
                }
                ty => self.named(ty).0,
            };
            if !attr_of_complex(&e) {
                return e;
            }
        }
    }

    /// Adds a macro definition to the current file.
    pub fn gen_macro(&mut self, name: &str, depth: usize) -> Nd {
        let tag = self.tag();
        let n = self.s.below(4);
        let mut params: Vec<(String, Ty)> = vec![];
        for _ in 0..n {
            let names: Vec<&String> = params.iter().map(|p| &p.0).collect();
            let p = self.fresh_name(&names);
            if params.iter().any(|x| x.0 == p) {
                continue;
            }
            let ty = self.s.of(&[Ty::Int, Ty::Str, Ty::Own, Ty::Bool, Ty::Opt, Ty::P, Ty::VI, Ty::Us]);
            params.push((p, ty));
        }
        let saved_scopes = std::mem::replace(&mut self.scopes, vec![params.iter().map(|(n, t)| (n.clone(), Bind { ty: *t, rank0: false })).collect()]);
        let saved = (self.in_loop, self.loop_var, self.stable_only, self.in_macro, self.can_super);
        (self.in_loop, self.loop_var, self.stable_only, self.in_macro, self.can_super) = (false, false, true, true, false);
        let mut body = self.list(depth, 4);
        if !params.is_empty() && self.s.chance(25) {
            // the parameters once more, used in a loop of the macro
            let (tag, end) = (self.tag(), self.tag());
            self.scopes.push(vec![]);
            let x = self.fresh_name(&params.iter().map(|p| &p.0).collect::<Vec<_>>());
            let pat = self.bind_pat(x, Ty::Int, false);
            let mut inner = vec![];
            for (p, ty) in &params {
                if matches!(ty, Ty::Int | Ty::Str | Ty::Own | Ty::Bool | Ty::Us) && self.lookup(p).is_some_and(|b| b.ty == *ty) {
                    let t = self.tag();
                    inner.push(Nd::Expr(t, Ex::Var(p.clone())));
                }
            }
            self.scopes.pop();
            let iter = Ex::Slf(self.s.of(&["xs", "ys"]).into());
            body.push(Nd::For { tag, pat, iter, cond: None, body: inner, els: None, end });
        }
        self.scopes = saved_scopes;
        (self.in_loop, self.loop_var, self.stable_only, self.in_macro, self.can_super) = saved;
        let end = self.tag();
        let names = params.iter().map(|p| p.0.clone()).collect();
        let sig = MacroSig { name: name.to_string(), params };
        let cur = self.cur;
        self.infos[cur].macros.push(sig);
        Nd::Macro { tag, name: name.to_string(), params: names, body, end }
    }

    /// The macro `cm` of this file.
    pub fn ctx_macro(&mut self) -> Nd {
        let (tag, t, end) = (self.tag(), self.tag(), self.tag());
        let text = self.text_src();
        let text = self.add_text(format!("cm{}{text}", self.cur));
        let body = vec![Nd::Text(text), Nd::Expr(t, Ex::Var("cx".into()))];
        Nd::Macro { tag, name: "cm".into(), params: vec!["cx".into()], body, end }
    }

    /// A block with its content; takes one of the available names.
    fn gen_block(&mut self, depth: usize) -> Nd {
        let ok: Vec<usize> = self.blocks.iter().copied().filter(|b| *b >= self.block_min).collect();
        let k = self.s.below(ok.len());
        let b = ok[k];
        self.blocks.retain(|x| *x != b);
        self.block_named(b, depth)
    }

    pub fn block_named(&mut self, b: usize, depth: usize) -> Nd {
        let can_super = self.ancestor_blocks.contains(&b);
        let tag = self.tag();
        let saved_scopes = std::mem::replace(&mut self.scopes, vec![vec![]]);
        let saved_min = std::mem::replace(&mut self.block_min, b + 1);
        let saved = (self.in_loop, self.loop_var, self.can_super);
        (self.in_loop, self.loop_var, self.can_super) = (false, false, can_super);
        let body = self.list(depth, 4);
        self.scopes = saved_scopes;
        self.block_min = saved_min;
        (self.in_loop, self.loop_var, self.can_super) = saved;
        let end = self.tag();
        Nd::Block { tag, name: format!("blk{b}"), body, end }
    }

    /// The path to write for a file, as seen from the current file.
    pub fn path_to(&mut self, f: usize) -> String {
        let target = self.p.files[f].path.clone();
        let dir = self.infos[self.cur].dir.clone();
        let inline = self.p.files[self.cur].path.is_empty();
        match target.strip_prefix(&format!("{dir}/")) {
            Some(rel) if !inline && !dir.is_empty() && self.s.chance(50) => rel.to_string(),
            _ => target,
        }
    }

    fn include_of(&mut self, f: usize) -> Nd {
        let tag = self.tag();
        let path = self.path_to(f);
        Nd::Include(tag, path, f)
    }

    /// An include of a new file whose content uses the variables in scope here.
    pub fn include_here(&mut self, path: &str, depth: usize) -> Nd {
        let f = self.add_file(path);
        let n = self.include_of(f);
        let saved_cur = std::mem::replace(&mut self.cur, f);
        let saved = (self.in_loop, self.can_super);
        (self.in_loop, self.can_super) = (false, false);
        let saved_blocks = std::mem::take(&mut self.blocks);
        let mut body = self.body(depth, 5);
        self.ending(&mut body);
        self.blocks = saved_blocks;
        (self.in_loop, self.can_super) = saved;
        self.cur = saved_cur;
        self.p.files[f].nodes = body;
        n
    }
}

pub fn has_filter(e: &Ex) -> bool {
    match e {
        Ex::Filt(..) => true,
        Ex::Attr(x, _) | Ex::Un(_, x) | Ex::Group(x) | Ex::Try(x) => has_filter(x),
        Ex::Idx(a, b) | Ex::Bin(_, a, b) | Ex::Range(a, b, _) => has_filter(a) || has_filter(b),
        Ex::Call(_, v) | Ex::Arr(v) | Ex::Tup(v) | Ex::Cycle(v) | Ex::Format(_, v) => v.iter().any(has_filter),
        Ex::Meth(x, _, v) => has_filter(x) || v.iter().any(has_filter),
        _ => false,
    }
}
