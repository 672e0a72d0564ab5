//! C06: expressions in templates and in Rust.
use crate::e2e::{E2e, Expect, Mode, Prog};
use crate::source::Src;
use crate::strings::rust_str;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    /// the number type of the case
    N,
    B,
    /// `usize`
    K,
    S,
}

/// An expression, as it is written in templates and in Rust.
#[derive(Clone, Debug)]
pub(super) enum X {
    /// written the same way everywhere
    Lit(String),
    /// in templates, and in Rust
    Leaf(String, String),
    Post(Box<X>, String),
    Idx(Box<X>, Box<X>),
    Bin(&'static str, Box<X>, Box<X>),
    Un(&'static str, Box<X>),
    /// function or method and arguments
    Call(Option<Box<X>>, String, Vec<X>),
    /// filter in templates, function in Rust
    Filt(Box<X>, &'static str, Vec<X>),
    /// `|deref`
    Deref(Box<X>),
    AsRef(Box<X>),
    Group(Box<X>),
    Seq(bool, Vec<X>),
}

fn op_level(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "==" | "!=" | "<" | "<=" | ">" | ">=" => 3,
        "|" => 4,
        "^" => 5,
        "&" => 6,
        "<<" | ">>" => 7,
        "+" | "-" => 8,
        _ => 9,
    }
}

fn level(e: &X) -> u8 {
    match e {
        X::Bin(op, ..) => op_level(op),
        X::Filt(..) | X::Deref(..) | X::AsRef(..) => 10,
        X::Un(..) => 11,
        _ => 12,
    }
}

/// How a template spells it; parentheses only where they are needed.
pub(super) fn tpl(e: &X, s: &mut Src) -> String {
    fn at(e: &X, min: u8, s: &mut Src) -> String {
        let t = tpl(e, s);
        match level(e) < min {
            true if s.chance(15) => format!("( {t} )"),
            true => format!("({t})"),
            false => t,
        }
    }
    fn list(v: &[X], s: &mut Src) -> String {
        let v: Vec<String> = v.iter().map(|x| tpl(x, s)).collect();
        let comma = if s.chance(15) { " , " } else { ", " };
        let mut t = v.join(if s.chance(15) { "," } else { comma });
        if !v.is_empty() && s.chance(8) {
            t.push(',');
        }
        t
    }
    match e {
        X::Lit(t) | X::Leaf(t, _) => t.clone(),
        X::Post(x, p) => format!("{}{p}", at(x, 12, s)),
        X::Idx(x, i) => {
            let (x, i) = (at(x, 12, s), tpl(i, s));
            match s.chance(10) {
                true => format!("{x}[ {i} ]"),
                false => format!("{x}[{i}]"),
            }
        }
        X::Bin(op, a, b) => {
            let l = op_level(op);
            let (a, b) = (at(a, if l == 3 { 4 } else { l }, s), at(b, l + 1, s));
            // a pipe directly after an operand is a filter
            match s.below(8) {
                0 if *op != "|" => format!("{a}{op}{b}"),
                1 => format!("{a} {op}{b}"),
                2 if *op != "|" => format!("{a}{op} {b}"),
                3 => format!("{a}\n\t{op}  {b}"),
                _ => format!("{a} {op} {b}"),
            }
        }
        X::Un(op, x) => {
            let x = at(x, 11, s);
            match s.chance(8) {
                true => format!("{op} {x}"),
                false => format!("{op}{x}"),
            }
        }
        X::Call(None, f, args) => format!("{f}({})", list(args, s)),
        X::Call(Some(x), f, args) => format!("{}.{f}({})", at(x, 12, s), list(args, s)),
        X::Filt(x, f, args) => {
            let x = at(x, 10, s);
            match args.is_empty() {
                true => format!("{x}|{f}"),
                false => format!("{x}|{f}({})", list(args, s)),
            }
        }
        X::Deref(x) => format!("{}|deref", at(x, 10, s)),
        X::AsRef(x) => format!("{}|as_ref", at(x, 10, s)),
        X::Group(x) => format!("({})", tpl(x, s)),
        X::Seq(true, v) => format!("[{}]", list(v, s)),
        X::Seq(false, v) if v.len() == 1 => format!("({},)", tpl(&v[0], s)),
        X::Seq(false, v) => format!("({})", list(v, s)),
    }
}

/// What Rust calls it, with all parentheses.
pub(super) fn rust(e: &X) -> String {
    let list = |v: &[X]| v.iter().map(rust).collect::<Vec<_>>().join(", ");
    match e {
        X::Lit(t) | X::Leaf(_, t) => t.clone(),
        X::Post(x, p) => format!("({}{p})", rust(x)),
        X::Idx(x, i) => format!("({}[{}])", rust(x), rust(i)),
        X::Bin(op, a, b) => format!("({} {op} {})", rust(a), rust(b)),
        X::Un(op, x) => format!("({op}({}))", rust(x)),
        X::Call(None, f, args) if f.starts_with("self.") => format!("t.{}({})", &f[5..], list(args)),
        X::Call(None, f, args) if f == "call" => format!("(t.call)(&{})", list(args)),
        X::Call(None, f, args) => format!("{f}({})", list(args)),
        X::Call(Some(x), f, args) => format!("({}.{f}({}))", rust(x), list(args)),
        X::Filt(x, f, args) if args.is_empty() => format!("filters::{f}({}).unwrap()", rust(x)),
        X::Filt(x, f, args) => format!("filters::{f}({}, {}).unwrap()", rust(x), list(args)),
        X::Deref(x) | X::AsRef(x) | X::Group(x) => rust(x),
        X::Seq(true, v) => format!("[{}]", list(v)),
        X::Seq(false, v) => format!("({},)", list(v)),
    }
}

struct G<'a> {
    s: &'a mut Src,
    ty: &'static str,
    /// name, type, whether it is a reference
    locals: Vec<(String, Ty, bool)>,
    logs: usize,
    ops: Vec<&'static str>,
}

fn b(x: X) -> Box<X> {
    Box::new(x)
}

impl G<'_> {
    fn signed(&self) -> bool {
        !self.ty.starts_with('u')
    }
    fn float(&self) -> bool {
        self.ty.starts_with('f')
    }
    fn leaf(&mut self, name: &str) -> X {
        let t = match self.s.chance(35) {
            true => format!("self.{name}"),
            false => name.to_string(),
        };
        X::Leaf(t, format!("t.{name}"))
    }
    fn number(&mut self, suffix: bool) -> String {
        let n = match self.s.below(6) {
            0 => 0,
            5 => self.s.below(128),
            _ => 1 + self.s.below(9),
        };
        let suffix = match suffix || self.s.chance(30) {
            true => self.ty,
            false => "",
        };
        if self.float() {
            return match self.s.below(5) {
                0 => format!("{n}.0{suffix}"),
                1 => format!("{n}.2_5{suffix}"),
                2 => format!("{n}e1{suffix}"),
                3 => format!("{n}.5E-1{suffix}"),
                _ => format!("{n}.5{suffix}"),
            };
        }
        match self.s.below(12) {
            0 => format!("0x{n:x}{suffix}"),
            1 => format!("0b{n:b}{suffix}"),
            2 => format!("0o{n:o}{suffix}"),
            3 => format!("{n}_{suffix}"),
            4 => format!("0_0{n}{suffix}"),
            _ => format!("{n}{suffix}"),
        }
    }
    /// The expression and whether the template makes a reference of it.
    fn any(&mut self, ty: Ty, d: usize) -> (X, bool) {
        let (x, r) = self.any_(ty, d);
        match d > 0 && self.s.chance(6) {
            true => (X::Group(b(x)), r),
            false => (x, r),
        }
    }
    /// Not a reference.
    fn val(&mut self, ty: Ty, d: usize) -> X {
        match self.any(ty, d) {
            (x, false) => x,
            (x, true) => X::Deref(b(x)),
        }
    }
    fn any_(&mut self, ty: Ty, d: usize) -> (X, bool) {
        if d == 0 || self.s.chance(15) {
            return self.atom(ty);
        }
        let d = d - 1;
        match ty {
            Ty::N => match self.s.below(20) {
                0..=9 => {
                    let ops: &[&'static str] = match self.float() {
                        true => &["+", "-", "*", "/", "%"],
                        false => &["+", "-", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&", "|", "^", ">>"],
                    };
                    let op = self.s.of(ops);
                    self.ops.push(op);
                    let (l, r) = (self.any(ty, d).0, self.any(ty, d).0);
                    (X::Bin(op, b(l), b(r)), false)
                }
                10 | 11 => {
                    let op = match (self.float(), self.signed()) {
                        (true, _) => "-",
                        (_, true) => self.s.of(&["-", "!"]),
                        _ => "!",
                    };
                    let x = self.any(ty, d).0;
                    // there is no space between operators that would not be one in Rust
                    (X::Un(op, b(x)), false)
                }
                12 => {
                    let x = self.receiver(d);
                    let a = self.any(ty, d).0;
                    let m = self.s.of(&["plus", "less"]).to_string();
                    (X::Call(Some(b(x)), m, vec![a]), false)
                }
                13 => {
                    let f = self.s.of(&["h::add", "h::sub", "self.over"]).to_string();
                    let args = vec![self.any(ty, d).0, self.any(ty, d).0];
                    (X::Call(None, f, args), false)
                }
                14 => {
                    let x = self.any(ty, d).0;
                    match self.s.chance(50) {
                        true => (X::Filt(b(x), "inc", vec![]), false),
                        false => {
                            let a = self.any(ty, d).0;
                            (X::Filt(b(x), "less", vec![a]), false)
                        }
                    }
                }
                15 => {
                    let c = self.any(Ty::B, d).0;
                    let args = vec![c, self.any(ty, d).0, self.any(ty, d).0];
                    (X::Call(None, "h::pick".into(), args), false)
                }
                16 => {
                    let x = match self.s.chance(50) {
                        true => self.leaf("v"),
                        false => {
                            let a = self.any(ty, d).0;
                            X::Call(None, "h::list".into(), vec![a])
                        }
                    };
                    let k = self.val(Ty::K, d);
                    (X::Idx(b(x), b(k)), true)
                }
                17 => {
                    let a = self.any(ty, d).0;
                    let q = X::Call(None, "h::mkq".into(), vec![a]);
                    let p = self.s.of(&[".n", ".t.1.1", ".t.0"]).to_string();
                    (X::Post(b(q), p), false)
                }
                18 => {
                    self.logs += 1;
                    let id = X::Lit(self.logs.to_string());
                    let a = self.any(ty, d).0;
                    (X::Call(None, "h::lg".into(), vec![id, a]), false)
                }
                _ => {
                    let (x, r) = self.any(ty, d);
                    match r {
                        true => (X::Deref(b(x)), false),
                        false => (X::Deref(b(X::AsRef(b(x)))), false),
                    }
                }
            },
            Ty::B => match self.s.below(16) {
                0..=5 => {
                    let op = self.s.of(&["&&", "||"]);
                    self.ops.push(op);
                    (X::Bin(op, b(self.val(ty, d)), b(self.val(ty, d))), false)
                }
                6..=9 => {
                    let op = self.s.of(&["==", "!=", "<", "<=", ">", ">="]);
                    self.ops.push(op);
                    let t = self.s.of(&[Ty::N, Ty::N, Ty::N, Ty::K, Ty::S]);
                    (X::Bin(op, b(self.val(t, d)), b(self.val(t, d))), false)
                }
                10 => {
                    let op = self.s.of(&["==", "!=", "&", "|", "^"]);
                    self.ops.push(op);
                    (X::Bin(op, b(self.val(ty, d)), b(self.val(ty, d))), false)
                }
                11 | 12 => {
                    let x = self.any(ty, d).0;
                    (X::Un("!", b(x)), false)
                }
                13 => {
                    self.logs += 1;
                    let id = X::Lit(self.logs.to_string());
                    let a = self.any(ty, d).0;
                    (X::Call(None, "h::lgb".into(), vec![id, a]), false)
                }
                14 => {
                    let x = self.any(ty, d).0;
                    (X::Filt(b(x), "not", vec![]), false)
                }
                _ => {
                    let x = self.leaf("bs");
                    let k = self.val(Ty::K, d);
                    (X::Idx(b(x), b(k)), true)
                }
            },
            Ty::K => match self.s.below(5) {
                0 | 1 => {
                    let op = self.s.of(&["+", "%", "*", "&", "/", "-"]);
                    self.ops.push(op);
                    (X::Bin(op, b(self.any(ty, d).0), b(self.any(ty, d).0)), false)
                }
                2 => {
                    let x = self.atom(Ty::S).0;
                    (X::Call(Some(b(x)), "len".into(), vec![]), false)
                }
                3 => {
                    let x = self.leaf("v");
                    (X::Call(Some(b(x)), "len".into(), vec![]), false)
                }
                _ => self.atom(ty),
            },
            Ty::S => self.atom(ty),
        }
    }
    /// Something that has methods.
    fn receiver(&mut self, d: usize) -> X {
        match self.s.below(4) {
            0 => X::Lit(self.number(true)),
            1 => X::Group(b(X::Un(if self.signed() { "-" } else { "!" }, b(self.leaf("a"))))),
            2 => {
                let ops: &[&'static str] = if self.float() { &["+", "*"] } else { &["+", "*", "^", "&"] };
                let op = self.s.of(ops);
                let l = self.leaf("b");
                X::Group(b(X::Bin(op, b(l), b(self.any(Ty::N, d).0))))
            }
            _ => self.leaf("c"),
        }
    }
    fn atom(&mut self, ty: Ty) -> (X, bool) {
        let known: Vec<(String, Ty, bool)> = self.locals.iter().filter(|l| l.1 == ty).cloned().collect();
        if !known.is_empty() && self.s.chance(30) {
            let (n, _, r) = known[self.s.below(known.len())].clone();
            return (X::Leaf(n.clone(), n), r);
        }
        match ty {
            Ty::N => match self.s.below(12) {
                0..=3 => (X::Lit(self.number(false)), false),
                4..=7 => {
                    let n = self.s.of(&["a", "b", "c"]);
                    (self.leaf(n), false)
                }
                8 => {
                    let q = self.leaf("q");
                    let p = self.s.of(&[".n", ".t.1.1", ".t.0"]).to_string();
                    (X::Post(b(q), p), false)
                }
                9 => {
                    let n = self.s.of(&["a", "b"]);
                    (X::Call(None, "call".into(), vec![self.leaf(n)]), false)
                }
                10 => {
                    let q = self.leaf("qs");
                    let k = X::Lit(self.s.below(2).to_string());
                    (X::Post(b(X::Idx(b(q), b(k))), ".n".into()), true)
                }
                _ => {
                    let v = self.leaf("v");
                    let k = X::Lit(self.s.below(3).to_string());
                    (X::Idx(b(v), b(k)), true)
                }
            },
            Ty::B => match self.s.below(6) {
                0 => (X::Lit(self.s.of(&["true", "false"]).into()), false),
                1 => {
                    let q = self.leaf("q");
                    (X::Post(b(q), ".t.1.0".into()), false)
                }
                2 => {
                    let x = self.atom(Ty::S).0;
                    let a = self.s.of(&["\"a\"", "'b'", "\"\\\"\""]).to_string();
                    (X::Call(Some(b(x)), "contains".into(), vec![X::Lit(a)]), false)
                }
                _ => {
                    let n = self.s.of(&["p", "r"]);
                    (self.leaf(n), false)
                }
            },
            Ty::K => match self.s.below(2) {
                0 => (X::Lit(self.s.below(4).to_string()), false),
                _ => (self.leaf("k"), false),
            },
            Ty::S => match self.s.below(3) {
                0 => (X::Lit(self.s.of(&["\"\"", "\"a\"", "\"b\\\"\"", "\"\\u{e9}\\n\"", "\"{}\""]).into()), false),
                _ => {
                    let n = self.s.of(&["s", "z"]);
                    (self.leaf(n), false)
                }
            },
        }
    }
    /// A piece of a template and statements that push the same to `o`.
    fn piece(&mut self, k: usize) -> (String, String) {
        let d = 1 + self.s.below(4);
        let ty = self.s.of(&[Ty::N, Ty::N, Ty::N, Ty::B, Ty::B]);
        match self.s.below(14) {
            0 | 1 => {
                let (x, r) = self.any(ty, d);
                // a move would be one in Rust, too
                let n = format!("y{k}");
                let t = format!("{{% let {n} = {} %}}", tpl(&x, self.s));
                // a value that is not used has no type
                let p = format!("let {n} = {};", rust(&x));
                let used = match (ty, r) {
                    (Ty::N, false) => format!("h::is({n})"),
                    _ => n.clone(),
                };
                self.locals.push((n, ty, r));
                (format!("{t}{{{{ {used} }}}}"), format!("{p} w!({used});"))
            }
            2 | 3 => {
                let x = self.val(Ty::B, d);
                let c = tpl(&x, self.s);
                (format!("{{% if {c} %}}yes{{% else %}}no{{% endif %}}"), format!("if {} {{ w!(\"yes\") }} else {{ w!(\"no\") }}", rust(&x)))
            }
            4 => {
                let (x, y) = (self.val(Ty::B, d), self.val(Ty::B, d));
                let (c, e) = (tpl(&x, self.s), tpl(&y, self.s));
                (
                    format!("{{% if {c} %}}1{{% else if {e} %}}2{{% else %}}3{{% endif %}}"),
                    format!("if {} {{ w!(1) }} else if {} {{ w!(2) }} else {{ w!(3) }}", rust(&x), rust(&y)),
                )
            }
            5 if !self.float() => {
                let m = |g: &mut Self, d: usize| {
                    let x = g.val(Ty::N, d.min(2));
                    // the literal decides about nothing
                    X::Bin("%", b(X::Call(None, "h::is".into(), vec![x])), b(X::Lit("7".into())))
                };
                let (x, y) = (m(self, d), m(self, d));
                let op = self.s.of(&["..", "..="]);
                let (l, r) = (tpl(&x, self.s), tpl(&y, self.s));
                let space = if self.s.chance(20) { " " } else { "" };
                (
                    format!("{{% for i in {l}{space}{op}{space}{r} %}}{{{{ i }}}},{{% endfor %}}"),
                    format!("for i in {}{op}{} {{ w!(i); w!(\",\"); }}", rust(&x), rust(&y)),
                )
            }
            6 => {
                let n = 1 + self.s.below(3);
                let arr = self.s.chance(50);
                let v: Vec<X> = (0..n).map(|_| self.val(ty, d.min(2))).collect();
                let x = X::Seq(arr, v);
                (format!("{{{{ {}|fmt(\"{{:?}}\") }}}}", tpl(&x, self.s)), format!("w!(format!(\"{{:?}}\", {}));", rust(&x)))
            }
            7 if !self.float() => {
                let x = self.val(Ty::N, d);
                let (l, m) = (self.number(false), self.number(false));
                let (t, r) = (tpl(&x, self.s), rust(&x));
                match self.s.below(4) {
                    0 => (
                        format!("{{% match {t} %}}{{% when {l} or {m} %}}same{{% when other %}}{{{{ other }}}}{{% endmatch %}}"),
                        format!("{{ let other = {r}; if other == {l} || other == {m} {{ w!(\"same\") }} else {{ w!(other) }} }}"),
                    ),
                    1 => (
                        format!("{{% if let {l} = {t} %}}same{{% else %}}other{{% endif %}}"),
                        format!("if {r} == {l} {{ w!(\"same\") }} else {{ w!(\"other\") }}"),
                    ),
                    2 => (
                        format!("{{% if false %}}{{% else if let value = {t} %}}{{{{ value }}}}{{% endif %}}"),
                        format!("{{ let value = {r}; w!(value); }}"),
                    ),
                    _ => (
                        format!("{{% match {t} %}}{{% when {l} %}}same{{% else %}}other{{% endmatch %}}"),
                        format!("if {r} == {l} {{ w!(\"same\") }} else {{ w!(\"other\") }}"),
                    ),
                }
            }
            10 => {
                let x = self.val(Ty::B, d);
                // `if let` takes them for the operators of a chain
                let is_match = self.s.chance(50);
                let x = match x {
                    X::Bin("&&" | "||", ..) if !is_match => X::Group(b(x)),
                    x => x,
                };
                let (t, r) = (tpl(&x, self.s), rust(&x));
                let l = self.s.of(&["true", "false"]);
                match is_match {
                    true => (
                        format!("{{% match {t} %}}{{% when {l} %}}same{{% else %}}other{{% endmatch %}}"),
                        format!("if {r} == {l} {{ w!(\"same\") }} else {{ w!(\"other\") }}"),
                    ),
                    false => (
                        format!("{{% if let {l} = {t} %}}same{{% else %}}other{{% endif %}}"),
                        format!("if {r} == {l} {{ w!(\"same\") }} else {{ w!(\"other\") }}"),
                    ),
                }
            }
            8 => {
                let x = self.any(ty, d).0;
                (format!("{{{{ h::show({}) }}}}", tpl(&x, self.s)), format!("w!({});", rust(&x)))
            }
            9 => {
                let x = self.any(Ty::K, d).0;
                (format!("{{{{ {} }}}}", tpl(&x, self.s)), format!("w!({});", rust(&x)))
            }
            _ => {
                let x = self.any(ty, d).0;
                (format!("{{{{ {} }}}}", tpl(&x, self.s)), format!("w!({});", rust(&x)))
            }
        }
    }
}

const TYPES: &[&str] = &["i32", "i64", "u8", "i8", "i16", "u16", "u32", "u64", "isize", "usize", "i128", "u128", "f64", "f32"];

fn gen(s: &mut Src) -> Option<Prog> {
    let ty = s.of(TYPES);
    let mut g = G { s, ty, locals: vec![], logs: 0, ops: vec![] };
    let mut code = format!(
        "#![allow(arithmetic_overflow, unconditional_panic, overflowing_literals, unconditional_recursion)]\nuse askama::Template;\nuse crate::p;\n{}",
        include_str!("exprs_prelude.rs.txt").replace("NUM", ty)
    );
    let mut run = String::new();
    for k in 0..3 {
        g.locals.clear();
        let mut t = String::new();
        let mut r = String::new();
        for j in 0..1 + g.s.below(3) {
            let (a, b) = g.piece(j);
            // the parser limits the depth
            let mut deep = 0;
            let mut deepest = 0;
            for c in a.chars() {
                match c {
                    '(' | '[' => deep += 1,
                    ')' | ']' => deep -= 1,
                    _ => {}
                }
                deepest = deepest.max(deep);
            }
            if deepest > 5 {
                return None;
            }
            t.push_str(&a);
            t.push('|');
            r.push_str(&format!("        {b}\n        w!(\"|\");\n"));
        }
        let val = |g: &mut G| {
            let n = match g.s.below(8) {
                0 => 0,
                7 => 127,
                _ => g.s.below(20),
            };
            match g.float() {
                true => format!("{n}.0"),
                false => n.to_string(),
            }
        };
        let v: Vec<String> = (0..11).map(|_| val(&mut g)).collect();
        let q = |a: usize, g: &mut G| format!("Q {{ n: {}, t: ({}, ({}, {})) }}", v[a], v[a + 1], g.s.chance(50), v[a + 2]);
        let (q0, q1) = (q(3, &mut g), q(6, &mut g));
        let fields = format!(
            "a: {}, b: {}, c: {}, k: {}, p: {}, r: {}, s: {}, z: {}, v: vec![{}, {}, {}], bs: vec![{}, {}], qs: vec![{q0}, {q1}], q: {q1}, call: h::call",
            v[0],
            v[1],
            v[2],
            g.s.below(4),
            g.s.chance(50),
            g.s.chance(50),
            rust_str(g.s.of(&["", "a", "ab\"", "é\n"])),
            rust_str(g.s.of(&["", "b", "a"])),
            v[8],
            v[9],
            v[10],
            g.s.chance(50),
            g.s.chance(50),
        );
        code.push_str(&format!(
            "#[derive(Template)]\n#[template(source = {}, ext = \"txt\")]\nstruct T{k} {{ a: NUM, b: NUM, c: NUM, k: usize, p: bool, r: bool, s: &'static str, z: &'static str, v: Vec<NUM>, bs: Vec<bool>, qs: Vec<Q>, q: Q, call: fn(&NUM) -> NUM }}\nimpl T{k} {{ fn over(&self, x: impl h::As<NUM>, y: impl h::As<NUM>) -> NUM {{ h::sub(self.a, h::sub(x, y)) }} }}\n",
            rust_str(&t)
        ).replace("NUM", ty));
        run.push_str(&format!(
            "    let t = T{k} {{ {fields} }};\n    o.push(p::guard(|| p::render(&t)));\n    o.push(p::guard(|| {{\n        let mut out = String::new();\n        macro_rules! w {{ ($e:expr) => {{ out.push_str(&format!(\"{{}}\", $e)) }} }}\n{r}        out\n    }}));\n"
        ));
    }
    code.push_str(&format!("pub fn run(o: &mut Vec<String>) {{\n{run}}}\n"));
    let mut ops = g.ops;
    ops.sort();
    ops.dedup();
    Some(Prog { files: vec![], code, expect: Expect::Pairs, nontrivial: ops.len() >= 2, tags: ops, deps: vec![] })
}

pub fn e2e() -> Vec<E2e> {
    vec![E2e { name: "expressions", quick: 4000, batch: 40, gen, mode: Mode::Plain, web: None }]
}
