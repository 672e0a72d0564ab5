//! C02: every form of expression whose value has characters to escape. C08: loops over them.
use super::exprs::{rust, tpl, X};
use crate::e2e::{E2e, Expect, Mode, Prog};
use crate::source::Src;
use crate::strings::rust_str;

const CODE: &str = r#"
/// A text with operators.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct M(&'static str);
impl std::fmt::Display for M {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for c in self.0.split_inclusive('&') {
            f.write_str(c)?;
        }
        Ok(())
    }
}
impl IntoIterator for M {
    type Item = char;
    type IntoIter = std::str::Chars<'static>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.chars()
    }
}
impl IntoIterator for &M {
    type Item = char;
    type IntoIter = std::str::Chars<'static>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.chars()
    }
}
pub struct Q {
    m: M,
    s: String,
    t: (M, (char, M, &'static str)),
}
pub mod h {
    use super::{M, Q};
    pub const K: &str = "<K&\"'>";
    pub trait As {
        fn get(&self) -> M;
    }
    impl As for M {
        fn get(&self) -> M {
            *self
        }
    }
    impl<U: As + ?Sized> As for &U {
        fn get(&self) -> M {
            (**self).get()
        }
    }
    pub fn leak(s: String) -> M {
        M(Box::leak(s.into_boxed_str()))
    }
    pub fn cat(a: impl As, op: &str, b: impl As) -> M {
        leak(format!("({}{op}{})", a.get(), b.get()))
    }
    pub fn text(s: &str) -> M {
        leak(s.to_string())
    }
    pub fn all(a: impl As) -> Vec<char> {
        a.get().0.chars().collect()
    }
    pub fn id(a: impl As) -> M {
        a.get()
    }
    pub fn ok(a: impl As) -> Result<M, std::fmt::Error> {
        Ok(a.get())
    }
    pub fn s(a: impl As) -> String {
        a.get().to_string()
    }
    pub fn mkq(a: impl As) -> Q {
        Q { m: a.get(), s: s(&a), t: (a.get(), ('<', cat(&a, "\"", &a), "&amp;")) }
    }
    impl M {
        pub fn with(&self, o: impl As) -> M {
            cat(self, "'", o)
        }
        pub fn owned(&self) -> String {
            self.to_string()
        }
    }
    macro_rules! ops {
        ($($t:ident $f:ident $o:literal),*) => { $(
            impl std::ops::$t<M> for M { type Output = M; fn $f(self, o: M) -> M { cat(self, $o, o) } }
            impl std::ops::$t<&M> for M { type Output = M; fn $f(self, o: &M) -> M { cat(self, $o, o) } }
            impl std::ops::$t<M> for &M { type Output = M; fn $f(self, o: M) -> M { cat(self, $o, o) } }
            impl std::ops::$t<&M> for &M { type Output = M; fn $f(self, o: &M) -> M { cat(self, $o, o) } }
        )* };
    }
    ops!(Add add "+", Sub sub "-", Mul mul "*", Div div "/", Rem rem "%", BitAnd bitand "&", BitOr bitor "|", BitXor bitxor "^", Shl shl "<<", Shr shr ">>");
    impl std::ops::Neg for M { type Output = M; fn neg(self) -> M { cat(self, "<", self) } }
    impl std::ops::Neg for &M { type Output = M; fn neg(self) -> M { cat(self, "<", self) } }
    impl std::ops::Not for M { type Output = M; fn not(self) -> M { cat(self, ">", self) } }
    impl std::ops::Not for &M { type Output = M; fn not(self) -> M { cat(self, ">", self) } }
}
pub mod filters {
    use super::{h::{self, As}, M};
    pub fn quote(a: impl As) -> askama::Result<M> {
        Ok(h::leak(format!("\"{}\"", a.get())))
    }
    pub fn pair(a: impl As, b: impl As) -> askama::Result<M> {
        Ok(h::cat(a, "&", b))
    }
    pub fn around(s: impl std::fmt::Display, a: impl As) -> askama::Result<String> {
        Ok(format!("{}'{s}'{}", a.get(), a.get()))
    }
    pub fn text(a: impl std::fmt::Display) -> askama::Result<String> {
        Ok(a.to_string())
    }
}
pub fn esc(html: bool, s: &(impl ToString + ?Sized)) -> String {
    let s = s.to_string();
    if !html {
        return s;
    }
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#x27;"),
            _ => o.push(c),
        }
    }
    o
}
"#;

const FIELDS: &str = "m: M, n: M, ms: Vec<M>, q: Q, qs: [Q; 1], st: String, bx: Box<str>, rc: std::rc::Rc<str>, cow: std::borrow::Cow<'static, str>, \
     rs: &'static str, rr: &'static &'static str, ch: char, bm: Box<M>, rm: &'static M, v: Vec<String>, map: std::collections::HashMap<&'static str, String>, \
     f: fn(&M) -> String";

fn b(x: X) -> Box<X> {
    Box::new(x)
}

fn leaf(s: &mut Src, name: &str) -> X {
    let t = if s.chance(35) { format!("self.{name}") } else { name.to_string() };
    X::Leaf(t, format!("t.{name}"))
}

/// An expression of type `M` or, if the flag is set, `&M`.
fn m(s: &mut Src, d: usize, local: Option<bool>, forms: &mut Vec<&'static str>) -> (X, bool) {
    if let (Some(reference), true) = (local, s.chance(25)) {
        forms.push("local");
        return (X::Lit("y".into()), reference);
    }
    if d == 0 || s.chance(15) {
        return match s.below(9) {
            0..=3 => {
                let n = s.of(&["m", "n", "m", "n", "rm"]);
                (leaf(s, n), n == "rm")
            }
            4 => {
                forms.push("attribute");
                let p = s.of(&[".m", ".t.0", ".t.1.1"]);
                (X::Post(b(leaf(s, "q")), p.into()), false)
            }
            5 => {
                forms.push("index");
                let k = s.below(2).to_string();
                (X::Idx(b(leaf(s, "ms")), b(X::Lit(k))), true)
            }
            6 => {
                forms.push("index");
                let q = X::Idx(b(leaf(s, "qs")), b(X::Lit("0".into())));
                let p = s.of(&[".m", ".t.0", ".t.1.1"]);
                (X::Post(b(q), p.into()), true)
            }
            _ => {
                forms.push("literal");
                let t = rust_str(s.of(&["<", "&amp;", "a\"b", "'", "<b>x</b>", "\\", "a", ""]));
                (X::Call(None, "h::text".into(), vec![X::Lit(t)]), false)
            }
        };
    }
    let d = d - 1;
    let sub = |s: &mut Src, forms: &mut Vec<&'static str>| m(s, d, local, forms).0;
    match s.below(16) {
        0..=4 => {
            forms.push("binary");
            let op = s.of(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]);
            let (l, r) = (sub(s, forms), sub(s, forms));
            (X::Bin(op, b(l), b(r)), false)
        }
        5 | 6 => {
            forms.push("unary");
            (X::Un(s.of(&["-", "!"]), b(sub(s, forms))), false)
        }
        7 => {
            forms.push("group");
            let (x, r) = m(s, d, local, forms);
            (X::Group(b(x)), r)
        }
        8 => {
            forms.push("call");
            (X::Call(None, "h::id".into(), vec![sub(s, forms)]), false)
        }
        9 => {
            forms.push("method");
            let x = match s.chance(50) {
                true => leaf(s, "m"),
                false => X::Group(b(X::Un("-", b(leaf(s, "n"))))),
            };
            (X::Call(Some(b(x)), "with".into(), vec![sub(s, forms)]), false)
        }
        10 => {
            forms.push("try");
            let x = sub(s, forms);
            (X::Leaf(format!("h::ok({})?", tpl(&x, s)), format!("h::ok({}).unwrap()", rust(&x))), false)
        }
        11 => {
            forms.push("attribute of a call");
            let q = X::Call(None, "h::mkq".into(), vec![sub(s, forms)]);
            let p = s.of(&[".m", ".t.0", ".t.1.1"]);
            (X::Post(b(q), p.into()), false)
        }
        12 => {
            forms.push("filter");
            (X::Filt(b(sub(s, forms)), "quote", vec![]), false)
        }
        13 => {
            forms.push("filter");
            let (x, y) = (sub(s, forms), sub(s, forms));
            (X::Filt(b(x), "pair", vec![y]), false)
        }
        _ => {
            let (x, r) = m(s, d, local, forms);
            forms.push("deref");
            match r {
                true => (X::Deref(b(x)), false),
                false => (X::Deref(b(X::AsRef(b(x)))), false),
            }
        }
    }
}

/// Anything that can be displayed.
fn any(s: &mut Src, local: Option<bool>, forms: &mut Vec<&'static str>) -> X {
    if s.chance(50) {
        let d = s.below(4);
        let (x, _) = m(s, d, local, forms);
        return match s.below(8) {
            0 => {
                forms.push("as_ref");
                X::AsRef(b(x))
            }
            1 => {
                forms.push("text of a call");
                X::Call(None, "h::s".into(), vec![x])
            }
            2 => {
                forms.push("text filter");
                X::Filt(b(x), "text", vec![])
            }
            _ => x,
        };
    }
    match s.below(12) {
        0..=4 => {
            let n = s.of(&["st", "bx", "rc", "cow", "rs", "rr", "bm", "rm", "v[0]", "q.s"]);
            let x = match n {
                "v[0]" => X::Idx(b(leaf(s, "v")), b(X::Lit("0".into()))),
                "q.s" => X::Post(b(leaf(s, "q")), ".s".into()),
                _ => leaf(s, n),
            };
            match s.below(4) {
                0 => {
                    forms.push("deref");
                    X::Deref(b(x))
                }
                1 => {
                    forms.push("as_ref");
                    X::AsRef(b(x))
                }
                2 => {
                    forms.push("deref");
                    X::Deref(b(X::AsRef(b(x))))
                }
                _ => x,
            }
        }
        5 => {
            forms.push("method");
            let (n, f) = s.of(&[("st", "as_str"), ("st", "to_lowercase"), ("bx", "to_string"), ("rs", "trim"), ("ch", "to_string"), ("m", "owned"), ("cow", "to_uppercase")]);
            X::Call(Some(b(leaf(s, n))), f.into(), vec![])
        }
        6 => {
            forms.push("attribute");
            let p = s.of(&[".s", ".t.1.0", ".t.1.2"]);
            match s.chance(50) {
                true => X::Post(b(leaf(s, "q")), p.into()),
                false => {
                    let a = m(s, 1, local, forms).0;
                    X::Post(b(X::Call(None, "h::mkq".into(), vec![a])), p.into())
                }
            }
        }
        7 => {
            forms.push("index");
            let k = s.of(&["\"k\"", "\"<\""]);
            X::Idx(b(leaf(s, "map")), b(X::Lit(k.into())))
        }
        8 => {
            forms.push("literal");
            X::Lit(s.of(&["\"<b>\"", "\"&amp;\"", "'<'", "'\\''", "\"a\\\"b\"", "\"'\"", "'\"'", "\"\""]).to_string())
        }
        9 => {
            forms.push("path");
            X::Lit(s.of(&["h::K", "self::h::K"]).into())
        }
        10 => {
            forms.push("call of a field");
            let n = s.of(&["m", "n"]);
            let x = leaf(s, n);
            X::Leaf(format!("f({})", tpl(&x, s)), format!("(t.f)(&{})", rust(&x)))
        }
        _ => {
            forms.push("Rust macro");
            let (a, b) = s.of(&[
                ("format!(\"<{}>\", self.m)", "format!(\"<{}>\", t.m)"),
                ("concat!(\"<\", '&', \"x\")", "concat!(\"<\", '&', \"x\")"),
                ("format!(\"{}{:?}\", self.st, self.rs)", "format!(\"{}{:?}\", t.st, t.rs)"),
            ]);
            X::Leaf(a.into(), b.into())
        }
    }
}

/// A loop over an expression.
fn loop_piece(s: &mut Src, html: bool, tags: &mut Vec<&'static str>) -> (String, String) {
    let d = s.below(4);
    let (x, _) = m(s, d, None, tags);
    tags.push("loop over an expression");
    let e = |x: &str| format!("out.push_str(&esc({html}, &{x}));");
    let filter = s.chance(20);
    let cond = if filter { s.of(&[" if c.is_alphanumeric()", " if !c.is_ascii_punctuation()", " if true", " if c.is_ascii() && !c.is_alphabetic()"]) } else { "" };
    let keep = cond.strip_prefix(" if ").unwrap_or("true");
    let (last, lastr) = match s.below(3) {
        0 => ("{% if loop.last %}.{% endif %}", "if i + 1 == w.len() { out.push('.'); }"),
        1 => ("{{ loop.index }}{% if loop.first %}f{% endif %}", "out.push_str(&(i + 1).to_string()); if i == 0 { out.push('f'); }"),
        _ => ("", ""),
    };
    let (els, elsr) = match s.chance(40) {
        true => ("{% else %}none", "if w.is_empty() { out.push_str(\"none\"); }"),
        false => ("", ""),
    };
    (
        format!("{{% for c in {}{cond} %}}{{{{ c }}}}{last}{els}{{% endfor %}}", tpl(&x, s)),
        format!(
            "{{ let w: Vec<char> = h::all({}).into_iter().filter(|&c| {keep}).collect(); for (i, c) in w.iter().enumerate() {{ let _ = i; {} {lastr} }} {elsr} }}",
            rust(&x),
            e("c")
        ),
    )
}

/// A piece of the template and what it has to add to `out`.
fn piece(s: &mut Src, html: bool, macros: &mut String, tags: &mut Vec<&'static str>) -> (String, String) {
    let e = |h: bool, x: &str| format!("out.push_str(&esc({h}, &{x}));");
    if s.chance(8) {
        tags.push("filter block");
        let (x, y) = (any(s, None, tags), m(s, 2, None, tags).0);
        let f = s.of(&["", "|upper", "|text|safe", "|e"]);
        let (tx, ty) = (tpl(&x, s), tpl(&y, s));
        let (end, raw) = match f {
            "|upper" => (".to_uppercase()", false),
            "|text|safe" => ("", true),
            _ => ("", false),
        };
        return (
            format!("{{% filter around({ty}){f} %}}a{{{{ {tx} }}}}{{% endfilter %}}"),
            format!("{{ let mid = format!(\"a{{}}\", esc({html}, &{})); out.push_str(&esc({}, &filters::around(&mid, {}).unwrap(){end})); }}", rust(&x), html && !raw, rust(&y)),
        );
    }
    if s.chance(8) {
        tags.push("macro with two parameters");
        let id = macros.len();
        let ((x, _), (y, _)) = (m(s, 2, None, tags), m(s, 2, None, tags));
        let (tx, ty) = (tpl(&x, s), tpl(&y, s));
        let args = match s.below(3) {
            0 => format!("{tx}, {ty}"),
            1 => format!("{tx}, w={ty}"),
            _ => format!("w={ty}, v={tx}"),
        };
        macros.push_str(&format!("{{% macro mac{id}(v, w) %}}{{{{ w }}}}{{{{ v }}}}{{{{ v.with(w) }}}}{{% endmacro %}}"));
        return (
            format!("{{% call mac{id}({args}) %}}"),
            format!("{{ let (v, w) = ({}, {}); out.push_str(&esc({html}, &w)); out.push_str(&esc({html}, &v)); out.push_str(&esc({html}, &v.with(w))); }}", rust(&x), rust(&y)),
        );
    }
    // where the value comes from
    let id = macros.len();
    let (l, r) = (s.chance(8), s.chance(8));
    let (l, r) = (if l { "{{- " } else { "{{ " }, if r { " -}}" } else { " }}" });
    let (pre, post, local, code) = match s.below(10) {
        0 => {
            let (x, r) = m(s, 2, None, tags);
            tags.push("let");
            (format!("{{% let y = {} %}}", tpl(&x, s)), String::new(), Some(r), format!("let y = {};", rust(&x)))
        }
        1 => {
            let x = match m(s, 2, None, tags) {
                (x, true) => X::Deref(b(x)),
                (x, false) => x,
            };
            tags.push("match");
            (format!("{{% match {} %}}{{% when y %}}", tpl(&x, s)), "{% endmatch %}".into(), Some(true), format!("let y = {};", rust(&x)))
        }
        2 => {
            let (x, _) = m(s, 2, None, tags);
            tags.push("if let");
            (format!("{{% if let Ok(y) = h::ok({}) %}}", tpl(&x, s)), "{% endif %}".into(), Some(true), format!("let y = {};", rust(&x)))
        }
        3 => {
            let f = s.of(&["ms", "self.ms"]);
            tags.push("loop");
            (format!("{{% for y in {f} %}}"), "{% endfor %}".into(), Some(true), "for y in t.ms.iter()".into())
        }
        4 => {
            let (x, r) = m(s, 2, None, tags);
            tags.push("macro");
            let named = if s.chance(30) { "y=" } else { "" };
            (format!("{{% macro mac{id}(y) %}}"), format!("{{% endmacro %}}\u{0}{{% call mac{id}({named}{}) %}}", tpl(&x, s)), Some(r), format!("let y = {};", rust(&x)))
        }
        _ => (String::new(), String::new(), None, String::new()),
    };
    let x = any(s, local, tags);
    let rx = rust(&x);
    let (t, o) = match s.below(12) {
        0 => {
            tags.push("safe");
            (tpl(&X::Filt(b(x), "safe", vec![]), s), e(false, &rx))
        }
        1 => {
            tags.push("e");
            let f = s.of(&["e", "escape"]);
            (tpl(&X::Filt(b(x), f, vec![]), s), e(html, &rx))
        }
        2 => {
            tags.push("escape(none)");
            (tpl(&X::Filt(b(x), "e", vec![X::Lit("\"none\"".into())]), s), e(false, &rx))
        }
        3 => {
            tags.push("escape(html)");
            (tpl(&X::Filt(b(x), "escape", vec![X::Lit("\"html\"".into())]), s), e(true, &rx))
        }
        _ => (tpl(&x, s), e(html, &rx)),
    };
    let t = format!("{pre}{l}{t}{r}{post}");
    let t = match t.split_once('\u{0}') {
        None => t,
        Some((a, b)) => {
            macros.push_str(a);
            b.to_string()
        }
    };
    (t, format!("{{ let _ = &t; {}{code} {{ {o} }} }}", if code.is_empty() { "" } else { "#[allow(unused_variables)] " }))
}

fn gen(s: &mut Src) -> Option<Prog> {
    program(s, false)
}

fn loops(s: &mut Src) -> Option<Prog> {
    program(s, true)
}

fn program(s: &mut Src, loops: bool) -> Option<Prog> {
    let mut code = format!("use askama::Template;\nuse crate::p;\n{CODE}");
    let mut run = String::new();
    let mut tags = vec![];
    for k in 0..3 {
        let html = s.chance(75);
        let (mut macros, mut t, mut r) = (String::new(), String::new(), String::new());
        for _ in 0..1 + s.below(5) {
            let (a, b) = match loops {
                true => loop_piece(s, html, &mut tags),
                false => piece(s, html, &mut macros, &mut tags),
            };
            t.push_str(&a);
            t.push('|');
            r.push_str(&format!("            {b}\n            out.push('|');\n"));
        }
        let mut text = || {
            let n = 1 + s.below(4);
            rust_str(&(0..n).map(|_| s.of(&["a", "B", "é", "<", ">", "&", "\"", "'", "&lt;", "&amp;", "\u{1d11e}", "{{"])).collect::<String>())
        };
        let x: Vec<String> = (0..18).map(|_| text()).collect();
        let i = |k: usize| &x[k];
        code.push_str(&format!(
            "#[derive(Template)]\n#[template(source = {}, ext = {:?})]\nstruct T{k} {{ {FIELDS} }}\n",
            rust_str(&format!("{macros}{t}")),
            if html { s.of(&["html", "xml", "j2"]) } else { s.of(&["txt", "md"]) }
        ));
        run.push_str(&format!(
            "    let t = T{k} {{ m: M({}), n: M({}), ms: vec![M({}), M({})], q: Q {{ m: M({}), s: {}.into(), t: (M({}), ('<', M({}), {})) }}, qs: [h::mkq(M({}))], \
             st: {}.into(), bx: {}.into(), rc: {}.into(), cow: {}.into(), rs: {}, rr: &{}, ch: {:?}, bm: Box::new(M({})), rm: &M({}), v: vec![\"<v>\".into()], \
             map: [(\"k\", \"<k>\".to_string()), (\"<\", \"&\".to_string())].into(), f: |m| format!(\"<f>{{m}}\") }};\n",
            i(0), i(1), i(2), i(3), i(4), i(5), i(6), i(7), i(8), i(9), i(10), i(11), i(12), i(13), i(14), i(15),
            s.of(&['<', '>', '&', '"', '\'', 'x']), i(16), i(17),
        ));
        run.push_str(&format!("    o.push(p::render(&t));\n    o.push({{\n            let mut out = String::new();\n{r}            out\n    }});\n"));
    }
    code.push_str(&format!("pub fn run(o: &mut Vec<String>) {{\n{run}}}\n"));
    tags.sort();
    tags.dedup();
    let nontrivial = tags.len() > if loops { 4 } else { 6 };
    Some(Prog { files: vec![], code, expect: Expect::Pairs, nontrivial, tags, deps: vec![] })
}

pub fn e2e_loops() -> Vec<E2e> {
    vec![E2e { name: "forms", quick: 1200, batch: 40, gen: loops, mode: Mode::Plain, web: None }]
}

pub fn e2e() -> Vec<E2e> {
    vec![E2e { name: "forms", quick: 1600, batch: 40, gen, mode: Mode::Plain, web: None }]
}
