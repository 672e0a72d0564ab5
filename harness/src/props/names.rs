//! C26: names, struct shapes and shadowed items.
use crate::e2e::{E2e, Expect, Mode, Prog, DIR};
use crate::source::Src;
use crate::strings::rust_str;

const KEYWORDS: &[&str] = &[
    "gen",
    "as", "do", "fn", "if", "in", "box", "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "else", "enum", "impl", "move", "priv", "type", "async", "await",
    "break", "const", "final", "macro", "match", "trait", "where", "while", "yield", "become", "extern", "return", "static", "struct", "typeof", "unsafe", "unsized",
    "virtual", "abstract", "continue", "override",
];
/// Names that generated code (or the template language) uses for something else.
const INTERNAL: &[&str] = &[
    "expr0", "expr1", "expr", "err", "_cycle", "_len", "_iter", "_loop_item", "_did_loop", "askama", "fmt", "core", "std", "alloc", "filters", "helpers", "render",
    "render_into", "write_str", "buf", "f", "shared", "iter", "item", "index", "first", "last", "cycle", "caller", "escape", "e", "include_bytes", "u8", "i64", "bool",
    "str", "usize", "char", "union", "auto", "default", "raw", "safe", "macro_rules", "not", "and", "is", "endif", "endfor", "import", "include", "extends",
    "block", "call", "set", "elif", "filter", "loop1", "supers", "selfs", "self_", "writers", "true_", "or_", "in_", "with", "or", "order", "inner", "lets", "ends",
];
const UNICODE: &[&str] = &["é", "naïve", "变量", "ß", "π", "_x", "x_", "_1", "ünï_2", "x1", "ñandú", "ключ", "a", "b", "data", "ｘ", "ªb", "camelCase", "w_W"];

/// What may not be a name of the template language.
fn name(s: &mut Src) -> String {
    match s.weighted(&[45, 30, 25]) {
        0 => s.pick(KEYWORDS),
        1 => s.pick(INTERNAL),
        _ => s.pick(UNICODE),
    }
    .to_string()
}

/// As written in Rust.
fn raw(n: &str) -> String {
    match KEYWORDS.contains(&n) {
        true => format!("r#{n}"),
        false => n.to_string(),
    }
}

fn fresh(s: &mut Src, used: &[String]) -> String {
    for _ in 0..20 {
        let n = name(s);
        if !used.contains(&n) {
            return n;
        }
    }
    format!("n{}", used.len())
}

const I64: &str = "::core::primitive::i64";
const STR: &str = "&'static ::core::primitive::str";

#[derive(Clone)]
enum Val {
    Int(i64),
    Str(String),
}

impl Val {
    fn show(&self) -> String {
        match self {
            Val::Int(i) => i.to_string(),
            Val::Str(s) => s.clone(),
        }
    }
    fn lit(&self) -> String {
        match self {
            Val::Int(i) => i.to_string(),
            Val::Str(s) => rust_str(s),
        }
    }
    fn ty(&self) -> &'static str {
        match self {
            Val::Int(_) => I64,
            Val::Str(_) => STR,
        }
    }
}

fn val(s: &mut Src) -> Val {
    match s.chance(60) {
        true => Val::Int(s.range(0, 99)),
        false => Val::Str(s.pick(&["p", "qr", "x y", "z-9"]).to_string()),
    }
}

/// A type of the module: `struct K { a: .., b: .. }`, in an enum or not.
struct Kind {
    /// As in patterns
    path: String,
    fields: Vec<String>,
    is_enum: bool,
    method: String,
    function: String,
}

enum Shape {
    Named,
    Tuple,
}

struct G {
    used: Vec<String>,
    /// Fields with simple values
    vals: Vec<(String, Val)>,
    lists: Vec<(String, Vec<i64>)>,
    kinds: Vec<(String, Vec<Val>)>,
    funcs: Vec<String>,
    kind: Kind,
    shape: Shape,
    method: String,
    /// Macros: how to call them and how many parameters they have
    macros: Vec<(String, Vec<String>, &'static str)>,
    blocks: Vec<String>,
    tags: Vec<&'static str>,
    marks: u32,
    /// Names of variables that were declared before they were assigned, which cannot be declared again.
    deferred: Vec<String>,
}

type Env = Vec<(String, String)>;

impl G {
    /// How the template names a field of `self`.
    fn field(&self, s: &mut Src, n: &str) -> String {
        match self.shape {
            Shape::Tuple => format!("self.{n}"),
            Shape::Named if s.chance(20) => format!("self.{n}"),
            Shape::Named => n.to_string(),
        }
    }

    /// Stands for the value of a loop variable.
    fn mark(&mut self) -> String {
        self.marks += 1;
        char::from_u32(0xE000 + self.marks).unwrap().to_string()
    }

    fn free(&self, env: &Env, n: &str) -> bool {
        !env.iter().any(|(m, _)| m == n)
    }

    /// A name in scope and its value.
    fn one(&self, s: &mut Src, env: &Env) -> Option<(String, String)> {
        let mut choices: Env = env.clone();
        for (n, v) in &self.vals {
            match self.shape {
                Shape::Named if self.free(env, n) => choices.push((n.clone(), v.show())),
                _ => {}
            }
            choices.push((format!("self.{n}"), v.show()));
        }
        if choices.is_empty() {
            return None;
        }
        let i = s.below(choices.len());
        let (n, _) = choices[i].clone();
        let v = choices.iter().rfind(|(m, _)| *m == n).unwrap().1.clone();
        Some((n, v))
    }

    fn uses(&mut self, s: &mut Src, env: &Env, src: &mut String, out: &mut String) {
        for _ in 0..1 + s.below(2) {
            let Some((n, v)) = self.one(s, env) else { return };
            match s.below(5) {
                0 => {
                    src.push_str(&format!("{{% if ({n} == {n}) %}}{{{{ {n} }}}}{{% endif %}};"));
                    out.push_str(&format!("{v};"));
                }
                1 => {
                    src.push_str(&format!("{{{{ {n}|upper }}}};"));
                    out.push_str(&format!("{};", v.to_uppercase()));
                }
                2 => {
                    src.push_str(&format!("{{{{({n})}}}};"));
                    out.push_str(&format!("{v};"));
                }
                _ => {
                    src.push_str(&format!("{{{{ {n} }}}};"));
                    out.push_str(&format!("{v};"));
                }
            }
        }
    }

    fn body(&mut self, s: &mut Src, env: &Env, depth: usize, src: &mut String, out: &mut String) {
        self.uses(s, env, src, out);
        if depth > 0 && s.chance(50) {
            self.section(s, env, depth - 1, src, out);
        }
    }

    fn section(&mut self, s: &mut Src, env: &Env, depth: usize, src: &mut String, out: &mut String) {
        let mut n = name(s);
        if self.deferred.contains(&n) {
            n = format!("n{}", self.deferred.len());
        }
        match s.below(13) {
            0 => {
                self.tags.push("let");
                let v = val(s);
                let mut e = env.clone();
                e.push((n.clone(), v.show()));
                let set = s.pick(&["let", "set"]);
                src.push_str(&format!("{{% if true %}}{{% {set} {n} = {} %}}", v.lit()));
                self.body(s, &e, depth, src, out);
                src.push_str("{% endif %}");
                self.uses(s, env, src, out);
            }
            1 => {
                self.tags.push("deferred let");
                let (a, b) = (s.range(0, 99), s.range(0, 99));
                let c = s.chance(50);
                let mut e = env.clone();
                e.push((n.clone(), if c { a } else { b }.to_string()));
                src.push_str(&format!(
                    "{{% if true %}}{{% let {n} %}}{{% if {c} %}}{{% let {n} = {a} %}}{{% else %}}{{% let {n} = {b} %}}{{% endif %}}"
                ));
                self.deferred.push(n.clone());
                self.body(s, &e, depth, src, out);
                self.deferred.pop();
                src.push_str("{% endif %}");
            }
            2 => {
                self.tags.push("let tuple");
                let mut m = fresh(s, &[n.clone()]);
                if self.deferred.contains(&m) {
                    m = "mm".to_string();
                }
                let (a, b) = (val(s), val(s));
                let mut e = env.clone();
                e.push((n.clone(), a.show()));
                e.push((m.clone(), b.show()));
                src.push_str(&format!("{{% if true %}}{{% let ({n}, {m}) = ({}, {}) %}}", a.lit(), b.lit()));
                self.body(s, &e, depth, src, out);
                src.push_str("{% endif %}");
            }
            3 | 4 => {
                let lists: Vec<_> = self.lists.iter().filter(|(l, _)| matches!(self.shape, Shape::Tuple) || self.free(env, l)).cloned().collect();
                if lists.is_empty() {
                    return;
                }
                self.tags.push("for");
                let (l, xs) = s.of(&lists);
                let l = self.field(s, &l);
                let pos = s.chance(30);
                let cond = if pos { format!(" if {n}.is_positive()") } else { String::new() };
                src.push_str(&format!("{{% for {n} in {l}{cond} %}}{{{{ loop.index }}}}:"));
                // all rounds print the same, but for the variable
                let mark_out = out.len();
                let mark = self.mark();
                let mut e = env.clone();
                e.push((n.clone(), mark.clone()));
                self.body(s, &e, depth, src, out);
                let body = out.split_off(mark_out);
                src.push_str("{% else %}none{% endfor %}");
                let xs: Vec<i64> = xs.iter().copied().filter(|x| !pos || *x > 0).collect();
                for (i, x) in xs.iter().enumerate() {
                    out.push_str(&format!("{}:{}", i + 1, body.replace(&mark, &x.to_string())));
                }
                if xs.is_empty() {
                    out.push_str("none");
                }
            }
            5 => {
                self.tags.push("for tuple");
                let mut m = fresh(s, &[n.clone()]);
                if self.deferred.contains(&m) {
                    m = "mm".to_string();
                }
                let xs: Vec<(i64, i64)> = (0..1 + s.below(2)).map(|_| (s.range(0, 99), s.range(0, 99))).collect();
                src.push_str(&format!(
                    "{{% for ({n}, {m}) in [{}] %}}",
                    xs.iter().map(|(a, b)| format!("({a}, {b})")).collect::<Vec<_>>().join(", ")
                ));
                let mut e = env.clone();
                let (ma, mb) = (self.mark(), self.mark());
                e.push((n.clone(), ma.clone()));
                e.push((m.clone(), mb.clone()));
                let at = out.len();
                self.body(s, &e, depth, src, out);
                let body = out.split_off(at);
                src.push_str("{% endfor %}");
                for (a, b) in xs {
                    out.push_str(&body.replace(&ma, &a.to_string()).replace(&mb, &b.to_string()));
                }
            }
            6 | 7 => {
                let kinds: Vec<_> = self.kinds.iter().filter(|(l, _)| matches!(self.shape, Shape::Tuple) || self.free(env, l)).cloned().collect();
                if kinds.is_empty() {
                    return;
                }
                let (k, vs) = s.of(&kinds);
                let k = self.field(s, &k);
                let i = s.below(vs.len());
                let f = self.kind.fields[i].clone();
                let path = self.kind.path.clone();
                let (bind, local) = match s.chance(50) && !self.deferred.contains(&f) {
                    true => (f.clone(), f.clone()),
                    false => (format!("{f}: {n}"), n.clone()),
                };
                // all fields, in any order
                let mut binds: Vec<String> = self.kind.fields.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, f)| format!("{f}: _")).collect();
                binds.insert(s.below(binds.len() + 1), bind);
                let binds = binds.join(", ");
                let mut e = env.clone();
                e.push((local, vs[i].show()));
                match s.below(3) {
                    0 => {
                        self.tags.push("match");
                        let with = s.pick(&["", " with"]);
                        src.push_str(&format!("{{% match {k} %}}{{% when {path}{with} {{ {binds} }} %}}"));
                        self.body(s, &e, depth, src, out);
                        if self.kind.is_enum {
                            src.push_str("{% else %}no");
                        }
                        src.push_str("{% endmatch %}");
                    }
                    1 => {
                        self.tags.push("if let");
                        src.push_str(&format!("{{% if let {path} {{ {binds} }} = {k} %}}"));
                        self.body(s, &e, depth, src, out);
                        src.push_str("{% endif %}");
                    }
                    _ if !self.kind.is_enum => {
                        self.tags.push("let struct");
                        src.push_str(&format!("{{% if true %}}{{% let {path} {{ {binds} }} = {k} %}}"));
                        self.body(s, &e, depth, src, out);
                        src.push_str("{% endif %}");
                    }
                    _ => {
                        self.tags.push("method");
                        let m = self.kind.method.clone();
                        let x = s.range(0, 99);
                        src.push_str(&format!("{{{{ {k}.{m}({x}) }}}};"));
                        out.push_str(&format!("{};", x + 1));
                    }
                }
            }
            8 => {
                let kinds: Vec<_> = self.kinds.iter().filter(|(l, _)| matches!(self.shape, Shape::Tuple) || self.free(env, l)).cloned().collect();
                if kinds.is_empty() {
                    return;
                }
                self.tags.push("attribute");
                let (k, vs) = s.of(&kinds);
                let k = self.field(s, &k);
                match self.kind.is_enum || s.chance(30) {
                    true => {
                        let m = self.kind.method.clone();
                        src.push_str(&format!("{{{{ {k}.{m}(7) }}}};"));
                        out.push_str("8;");
                    }
                    false => {
                        let i = s.below(vs.len());
                        src.push_str(&format!("{{{{ {k}.{} }}}};", self.kind.fields[i]));
                        out.push_str(&format!("{};", vs[i].show()));
                    }
                }
            }
            9 => {
                self.tags.push("method of self");
                let m = self.method.clone();
                let x = s.range(0, 99);
                src.push_str(&format!("{{{{ self.{m}({x}) }}}};"));
                out.push_str(&format!("{};", x + 2));
                if let (false, false) = (self.kind.is_enum, self.kind.function.is_empty()) {
                    let p = self.kind.path.clone();
                    src.push_str(&format!("{{{{ {p}::{}({x}) }}}};", self.kind.function));
                    out.push_str(&format!("{};", x + 4));
                }
            }
            10 => {
                let funcs: Vec<_> = self.funcs.iter().filter(|l| matches!(self.shape, Shape::Named) && self.free(env, l)).cloned().collect();
                if funcs.is_empty() {
                    return;
                }
                self.tags.push("function");
                let f = s.of(&funcs);
                let x = s.range(0, 99);
                src.push_str(&format!("{{{{ {f}({x}) }}}};"));
                out.push_str(&format!("{};", x + 3));
            }
            11 => {
                self.tags.push("filter block");
                src.push_str("{% filter upper %}");
                let mark = out.len();
                self.body(s, env, depth, src, out);
                let body = out.split_off(mark);
                src.push_str("{% endfilter %}");
                out.push_str(&body.to_uppercase());
            }
            _ => {
                if self.macros.is_empty() {
                    return;
                }
                self.tags.push("macro");
                let (call, params, _) = s.of(&self.macros);
                // literals and names, as written and as displayed
                let args: Vec<(String, String)> = params
                    .iter()
                    .map(|_| {
                        let named = if s.chance(50) { self.one(s, env) } else { None };
                        named.unwrap_or_else(|| {
                            let v = val(s);
                            (v.lit(), v.show())
                        })
                    })
                    .collect();
                let mut named = false;
                let order: Vec<usize> = match s.chance(40) {
                    true => {
                        named = true;
                        (0..params.len()).rev().collect()
                    }
                    false => (0..params.len()).collect(),
                };
                let list = order
                    .iter()
                    .map(|&i| match named {
                        true => format!("{}={}", params[i], args[i].0),
                        false => args[i].0.clone(),
                    })
                    .collect::<Vec<_>>();
                src.push_str(&format!("{{% call {call}({}) %}}", list.join(", ")));
                out.push_str(&format!("<{}>", args.iter().map(|a| a.1.clone()).collect::<Vec<_>>().join("/")));
            }
        }
    }
}

fn macro_def(n: &str, params: &[String]) -> String {
    let body: Vec<String> = params.iter().map(|p| format!("{{{{ {p} }}}}")).collect();
    format!("{{% macro {n}({}) %}}<{}>{{% endmacro {n} %}}", params.join(", "), body.join("/"))
}

const SHADOWS: &[&str] = &[
    "mod std {}",
    "mod core {}",
    "mod alloc {}",
    "mod askama {}",
    "struct String;",
    "struct Vec;",
    "struct Option;",
    "struct Result;",
    "struct Box;",
    "struct Ok;",
    "struct Err;",
    "struct bool {}",
    "struct str {}",
    "struct usize {}",
    "struct u8 {}",
    "struct i64 {}",
    "trait Display { fn fmt(&self); }",
    "trait Write {}",
    "trait Template {}",
    "trait Into {}",
    "trait From {}",
    "trait Iterator {}",
    "trait IntoIterator {}",
    "trait ToString {}",
    "fn drop() {}",
    "struct Html;",
    "struct Text;",
    "struct Error;",
    "struct MarkupDisplay;",
    "struct TemplateLoop;",
    "mod fmt {}",
    "mod helpers {}",
    "mod shared {}",
];
const MACROS: &[&str] = &["write", "writeln", "format", "panic", "include_bytes", "include_str", "concat", "vec", "matches", "assert", "unreachable", "stringify", "format_args"];

fn c26(s: &mut Src) -> Option<Prog> {
    let mut code = String::new();
    let mut tags = vec![];
    // items that shadow those of the standard library
    let mut taken: Vec<&str> = vec![];
    if s.chance(60) {
        tags.push("shadowed items");
        for _ in 0..1 + s.below(6) {
            let item = s.pick(SHADOWS);
            let n = item.split(' ').nth(1).unwrap().trim_end_matches(|c| c == ';' || c == '(' || c == ')');
            if !taken.contains(&n) {
                taken.push(n);
                code.push_str(item);
                code.push('\n');
            }
        }
        for _ in 0..s.below(3) {
            let m = s.pick(MACROS);
            code.push_str(&format!("macro_rules! {m} {{ ($($t:tt)*) => {{ ::core::compile_error!(\"shadowed\") }} }}\n"));
        }
    }
    // a type with named fields
    let mut fs: Vec<String> = vec![];
    for _ in 0..1 + s.below(3) {
        let n = fresh(s, &fs);
        fs.push(n);
    }
    let is_enum = s.chance(40);
    let mut kname = s.pick(&["Kind", "Kind", "Html", "Vec", "Option", "String", "MarkupDisplay", "Result", "Ünder"]).to_string();
    if taken.contains(&kname.as_str()) {
        kname = "Kind".to_string();
    }
    let method = name(s);
    let kvals: Vec<Val> = fs.iter().map(|_| val(s)).collect();
    let decl = fs.iter().zip(&kvals).map(|(f, v)| format!("{}: {}", raw(f), v.ty())).collect::<Vec<_>>().join(", ");
    let path = match is_enum {
        true => {
            code.push_str(&format!("pub enum {kname} {{ Nothing, Var {{ {decl} }} }}\n"));
            format!("{kname}::Var")
        }
        false => {
            code.push_str(&format!("pub struct {kname} {{ {decl} }}\n"));
            kname.clone()
        }
    };
    // keywords are not supported in paths
    let mut function = name(s);
    if KEYWORDS.contains(&function.as_str()) || function == method {
        function = "function".to_string();
    }
    code.push_str(&format!(
        "impl {kname} {{ pub fn {}(&self, x: {I64}) -> {I64} {{ x + 1 }} pub fn {function}(x: {I64}) -> {I64} {{ x + 4 }} }}\n",
        raw(&method)
    ));
    let kinit = |vs: &[Val]| format!("{path} {{ {} }}", fs.iter().zip(vs).map(|(f, v)| format!("{}: {}", raw(f), v.lit())).collect::<Vec<_>>().join(", "));
    // the template's type
    let shape = match s.chance(85) {
        true => Shape::Named,
        false => Shape::Tuple,
    };
    let mut g = G {
        used: vec![],
        vals: vec![],
        lists: vec![],
        kinds: vec![],
        funcs: vec![],
        kind: Kind { path: path.clone(), fields: fs.clone(), is_enum, method: method.clone(), function },
        shape,
        method: name(s),
        macros: vec![],
        blocks: vec![],
        tags,
        marks: 0,
        deferred: vec![],
    };
    let mut params: Vec<String> = vec![];
    let mut bounds: Vec<String> = vec![];
    let mut args: Vec<String> = vec![];
    let mut decls: Vec<(String, String, String)> = vec![];
    let lifetime = s.chance(40);
    if lifetime {
        params.push(s.pick(&["'a", "'writer", "'fmt", "'r"]).to_string());
        args.push("'_".to_string());
        if s.chance(30) {
            let l = params[0].clone();
            params.push(format!("'b: {l}"));
            args.push("'_".to_string());
            let n = match g.shape {
                Shape::Tuple => decls.len().to_string(),
                Shape::Named => fresh(s, &g.used),
            };
            g.used.push(n.clone());
            g.vals.push((n.clone(), Val::Int(5)));
            decls.push((n, format!("&'b &{l} {I64}"), "&&5".to_string()));
        }
    }
    let nf = s.below(7);
    let mut const_n = None;
    let mut tparams = vec![];
    for i in 0..nf {
        let n = match g.shape {
            Shape::Tuple => decls.len().to_string(),
            Shape::Named => fresh(s, &g.used),
        };
        g.used.push(n.clone());
        match s.weighted(&[40, 15, 15, 10, 10, 10]) {
            0 => {
                let v = val(s);
                let ty = match (&v, lifetime) {
                    (Val::Str(_), true) => format!("&{} ::core::primitive::str", params[0]),
                    _ => v.ty().to_string(),
                };
                decls.push((n.clone(), ty, v.lit()));
                g.vals.push((n, v));
            }
            1 => {
                let xs: Vec<i64> = (0..s.below(3)).map(|_| s.range(-1, 9)).collect();
                let init = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
                match s.below(3) {
                    0 if const_n.is_none() => {
                        const_n = Some(xs.len());
                        decls.push((n.clone(), format!("[{I64}; N]"), format!("[{init}]")));
                    }
                    1 => {
                        let p = s.pick(&["L", "Iter", "W", "T"]).to_string() + &i.to_string();
                        bounds.push(format!("for<'z> &'z {p}: ::core::iter::IntoIterator<Item = &'z {I64}>"));
                        tparams.push((p.clone(), None));
                        decls.push((n.clone(), p, format!("::std::vec::Vec::<{I64}>::from([{init}])")));
                    }
                    _ => decls.push((n.clone(), format!("::std::vec::Vec<{I64}>"), format!("::std::vec::Vec::<{I64}>::from([{init}])"))),
                }
                g.lists.push((n, xs));
            }
            2 => {
                let vs: Vec<Val> = kvals.iter().map(|v| match v {
                    Val::Int(_) => Val::Int(s.range(0, 99)),
                    v => v.clone(),
                }).collect();
                decls.push((n.clone(), kname.clone(), kinit(&vs)));
                g.kinds.push((n, vs));
            }
            3 => {
                decls.push((n.clone(), format!("fn({I64}) -> {I64}"), "|x| x + 3".to_string()));
                g.funcs.push(n);
            }
            _ => {
                // a generic parameter
                let p = s.pick(&["T", "U", "W", "F", "E", "Writer"]).to_string() + &i.to_string();
                let v = val(s);
                let inline = s.chance(50);
                let b = format!("{}::core::fmt::Display + ::core::cmp::PartialEq", if s.chance(30) { "?::core::marker::Sized + " } else { "" });
                let b = b.replace("?::core::marker::Sized + ", "");
                match inline {
                    true => tparams.push((p.clone(), Some(b))),
                    false => {
                        bounds.push(format!("{p}: {b}"));
                        tparams.push((p.clone(), None));
                    }
                }
                decls.push((n.clone(), p, v.lit()));
                g.vals.push((n, v));
            }
        }
    }
    let generic = !tparams.is_empty();
    for (p, b) in &tparams {
        let b = b.as_ref().map(|b| format!(": {b}")).unwrap_or_default();
        params.push(format!("{p}{b}"));
    }
    if const_n.is_some() {
        params.push("const N: ::core::primitive::usize".to_string());
    }
    // macros of the template and of an imported file
    let mut files = vec![];
    let mut head = String::new();
    let mut names: Vec<String> = vec![];
    for _ in 0..s.below(3) {
        let n = fresh(s, &names);
        if n == "super" {
            return None;
        }
        names.push(n.clone());
        let mut ps = vec![];
        for _ in 0..s.below(4) {
            let p = fresh(s, &ps);
            ps.push(p);
        }
        head.push_str(&macro_def(&n, &ps));
        g.macros.push((n, ps, ""));
    }
    if s.chance(30) {
        let scope = name(s);
        let n = name(s);
        let mut ps = vec![];
        for _ in 0..s.below(4) {
            let p = fresh(s, &ps);
            ps.push(p);
        }
        files.push((format!("templates/{DIR}/m.txt"), macro_def(&n, &ps)));
        head.push_str(&format!("{{% import \"{DIR}/m.txt\" as {scope} %}}"));
        g.macros.push((format!("{scope}::{n}"), ps, ""));
    }
    // the content
    let mut src = String::new();
    let mut out = String::new();
    let inherit = s.chance(30);
    let sections = 1 + s.below(5);
    let mut base = String::new();
    for _ in 0..sections {
        if inherit || s.chance(15) {
            let n = fresh(s, &g.blocks.clone());
            g.blocks.push(n.clone());
            let mut body = String::new();
            let mut bout = String::new();
            // all names of the overriding template are visible in its blocks
            g.body(s, &vec![], 2, &mut body, &mut bout);
            let over = s.chance(60);
            g.tags.push("block");
            match inherit {
                true => {
                    base.push_str(&format!("[{{% block {n} %}}{}{{% endblock {n} %}}]", if over { "base" } else { "same" }));
                    if over {
                        src.push_str(&format!("{{% block {n} %}}{body}{{% endblock %}}"));
                    }
                    out.push_str(&format!("[{}]", if over { &bout } else { "same" }));
                }
                false => {
                    src.push_str(&format!("{{% block {n} %}}{body}{{% endblock {n} %}}"));
                    out.push_str(&bout);
                }
            }
        } else {
            g.section(s, &vec![], 2, &mut src, &mut out);
        }
        let sep = s.pick(&["\n", " ", "."]);
        match inherit {
            true => {
                base.push_str(sep);
            }
            false => src.push_str(sep),
        }
        out.push_str(sep);
    }
    let mut source = format!("{head}{src}");
    if inherit {
        g.tags.push("extends");
        base.push('!');
        out.push('!');
        files.push((format!("templates/{DIR}/base.txt"), base));
        source = format!("{{% extends \"{DIR}/base.txt\" %}}{head}{src}");
    }
    let file = s.chance(50);
    let attr = match file {
        true => {
            files.push((format!("templates/{DIR}/t.txt"), format!("{source}\u{1}")));
            format!("path = \"{DIR}/t.txt\"")
        }
        false => format!("ext = \"txt\", source = {}", rust_str(&source)),
    };
    if !file && !inherit && source.ends_with('\n') {
        // inline templates keep the last line break
    }
    for (_, c) in files.iter_mut() {
        // file templates lose one trailing line break
        if c.ends_with('\u{1}') {
            c.pop();
            if c.ends_with('\n') && !inherit {
                out.pop();
            }
        }
    }
    // the type
    let mut tname = s.pick(&["T", "T", "Page", "r#type", "r#struct", "Template", "Option", "Result", "Error", "String", "Html", "é", "Writer", "self_", "askama"]).to_string();
    if taken.contains(&tname.as_str()) || kname == tname || tparams.iter().any(|(p, _)| *p == tname) {
        tname = "Page0".to_string();
    }
    // names of tuple and unit structs cannot be names of variables
    if tname.contains(|c: char| c.is_lowercase()) && !tname.starts_with(char::is_uppercase) && (matches!(g.shape, Shape::Tuple) || decls.is_empty()) {
        tname = "Page0".to_string();
    }
    let p = match params.is_empty() {
        true => String::new(),
        false => format!("<{}{}>", params.join(", "), if s.chance(20) { "," } else { "" }),
    };
    let w = match bounds.is_empty() {
        true => String::new(),
        false => format!(" where {}", bounds.join(", ")),
    };
    let vis = s.pick(&["pub ", "", "pub(crate) "]);
    let extra = s.pick(&["", "#[allow(dead_code)]\n", "/// Documentation\n", "#[doc(hidden)]\n"]);
    code.push_str(&format!("#[derive(::askama::Template)]\n{extra}#[template({attr})]\n"));
    // lifetimes and types that are not used elsewhere
    if lifetime {
        let l = params[0].clone();
        let n = match g.shape {
            Shape::Tuple => decls.len().to_string(),
            Shape::Named => "phantom_".to_string(),
        };
        decls.push((n, format!("::core::marker::PhantomData<&{l} ()>"), "::core::marker::PhantomData".to_string()));
    }
    let init = match g.shape {
        Shape::Tuple => {
            g.tags.push("tuple struct");
            code.push_str(&format!("{vis}struct {tname}{p}({}){w};\n", decls.iter().map(|(_, t, _)| t.clone()).collect::<Vec<_>>().join(", ")));
            format!("{tname}({})", decls.iter().map(|(_, _, v)| v.clone()).collect::<Vec<_>>().join(", "))
        }
        Shape::Named if decls.is_empty() && p.is_empty() && s.chance(70) => {
            g.tags.push("unit struct");
            code.push_str(&format!("{vis}struct {tname};\n"));
            tname.clone()
        }
        Shape::Named => {
            let fields = |f: fn(&(String, String, String)) -> String| decls.iter().map(|d| format!("{}: {}", raw(&d.0), f(d))).collect::<Vec<_>>().join(", ");
            code.push_str(&format!("{vis}struct {tname}{p}{w} {{ {} }}\n", fields(|d| d.1.clone())));
            format!("{tname} {{ {} }}", fields(|d| d.2.clone()))
        }
    };
    if generic || const_n.is_some() {
        g.tags.push("generics");
    }
    let (ig, tg) = (p.clone(), params.iter().map(|p| p.trim_start_matches("const ").split(':').next().unwrap().trim().to_string()).collect::<Vec<_>>().join(", "));
    let tg = if tg.is_empty() { tg } else { format!("<{tg}>") };
    code.push_str(&format!("impl{ig} {tname}{tg}{w} {{ fn {}(&self, x: {I64}) -> {I64} {{ x + 2 }} }}\n", raw(&g.method)));
    code.push_str(&format!(
        "pub fn run(o: &mut ::std::vec::Vec<::std::string::String>) {{\n    o.push(::askama::Template::render(&{init}).unwrap());\n}}\n"
    ));
    let nontrivial = g.tags.len() > 1 && (code.contains("r#") || g.tags.contains(&"shadowed items"));
    g.tags.sort();
    g.tags.dedup();
    Some(Prog { files, code, expect: Expect::Outputs(vec![("render".to_string(), out)]), nontrivial, tags: g.tags, deps: vec![] })
}

/// Enums as templates.
fn enums(s: &mut Src) -> Option<Prog> {
    let mut code = String::new();
    if s.chance(30) {
        code.push_str("struct Option; mod core {} mod std {}\n");
    }
    let tname = s.pick(&["T", "Option0", "Ünder", "Result"]).to_string();
    let generic = s.chance(30);
    let (p, ty) = match generic {
        true => (s.pick(&["<V: ::core::fmt::Display>", "<V>"]), "V"),
        false => ("", I64),
    };
    let w = if p == "<V>" { " where V: ::core::fmt::Display" } else { "" };
    let n = 1 + s.below(4);
    let mut decl = vec![];
    let mut src = String::new();
    let mut inits = vec![];
    let mut outs = vec![];
    let mut has_v = false;
    for i in 0..n {
        let vname = format!("{}{i}", s.pick(&["A", "Some", "None", "Self", "É", "X_y"]));
        let v = s.range(0, 99);
        let path = format!("{}::{vname}", if s.chance(30) { "Self" } else { &tname });
        let k = match i {
            0 if generic => 1 + s.below(2),
            _ => s.below(3),
        };
        has_v |= k > 0;
        let (d, pat, init, out) = match k {
            0 => (String::new(), String::new(), String::new(), "-".to_string()),
            1 => {
                let x = name(s);
                let with = s.pick(&["", " with"]);
                (format!("({ty})"), format!("{with} ({x})|{{{{ {x} }}}}"), format!("({v}i64)"), v.to_string())
            }
            _ => {
                let f = name(s);
                let x = name(s);
                let (b, u) = match s.chance(50) {
                    true => (f.clone(), f.clone()),
                    false => (format!("{f}: {x}"), x),
                };
                (format!(" {{ {}: {ty} }}", raw(&f)), format!(" {{ {b} }}|{{{{ {u} }}}}"), format!(" {{ {}: {v}i64 }}", raw(&f)), v.to_string())
            }
        };
        decl.push(format!("{vname}{d}"));
        let (pat, body) = pat.split_once('|').unwrap_or((&pat, "-"));
        src.push_str(&format!("{{% when {path}{pat} %}}{i}:{body}"));
        inits.push(format!("{tname}{}::{vname}{init}", if generic { "::<::core::primitive::i64>" } else { "" }));
        outs.push((format!("variant {i}"), format!("[{i}:{out}]")));
    }
    if generic && !has_v {
        return None;
    }
    let src = format!("[{{% match self %}}{src}{{% endmatch %}}]");
    code.push_str(&format!(
        "#[derive(::askama::Template)]\n#[template(ext = \"txt\", source = {})]\nenum {tname}{p}{w} {{ {} }}\npub fn run(o: &mut ::std::vec::Vec<::std::string::String>) {{\n",
        rust_str(&src),
        decl.join(", ")
    ));
    for i in inits {
        code.push_str(&format!("    o.push(::askama::Template::render(&{i}).unwrap());\n"));
    }
    code.push_str("}\n");
    let nontrivial = n > 1;
    Some(Prog { files: vec![], code, expect: Expect::Outputs(outs), nontrivial, tags: vec!["enum"], deps: vec![] })
}

pub fn e2e() -> Vec<E2e> {
    vec![
        E2e { name: "enums", quick: 600, batch: 60, gen: enums, mode: Mode::Plain, web: None },
        E2e { name: "names", quick: 2400, batch: 60, gen: c26, mode: Mode::Plain, web: None },
    ]
}
