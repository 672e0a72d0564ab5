//! C20, C21, C22: the template parser.
use crate::runner::{ok, Check, Sub, SubDyn};
use crate::source::Src;
use crate::strings::*;
use askama_parser::expr::{Expr, Filter};
use askama_parser::node::*;
use askama_parser::{Ast, Node, ParseError, Parsed, Syntax};

/// block, expression and comment delimiters
#[derive(Clone, Debug)]
pub struct Syn(pub [String; 6]);

impl Syn {
    pub fn default() -> Syn {
        Syn(["{%", "%}", "{{", "}}", "{#", "#}"].map(|s| s.to_string()))
    }
    fn syntax(&self) -> Syntax<'_> {
        let s = &self.0;
        Syntax {
            block_start: &s[0],
            block_end: &s[1],
            expr_start: &s[2],
            expr_end: &s[3],
            comment_start: &s[4],
            comment_end: &s[5],
        }
    }
    pub fn starts(&self) -> [&str; 3] {
        [&self.0[0], &self.0[2], &self.0[4]]
    }
    /// A valid configuration whose end delimiters are not mistaken for a part of an expression.
    pub fn gen(s: &mut Src) -> Syn {
        const START: &[&str] = &[
            "<%", "[[", "((", "@@", "${", "#{", "<!--", "\\(", "{{{", "é", "%%", "//", "/*", "$$", "日本", "{|", "<?php", "--", "::", "<$", "ab", "?{",
            "~<", "{%", "{{", "{#", "\"\"", "%{", "<#", "!(", "''",
        ];
        const END: &[&str] = &[
            "%>", "}}", "%}", "#}", "@@", "$$", ";;", "*/", "//", "^^", "!}", "\\)", "}", "&}", "%%", "#>", "日本", ">}", "$>", "!>", "}%", ":}", "/>",
            "@end", "é",
        ];
        loop {
            let mut v: [String; 6] = Default::default();
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i % 2 == 0 { s.pick(START) } else { s.pick(END) }.to_string();
            }
            let starts = [&v[0], &v[2], &v[4]];
            let prefix = (0..3).any(|i| (0..3).any(|j| i != j && starts[i].starts_with(starts[j].as_str())));
            let short = v.iter().any(|x| x.len() < 2);
            // a comment that starts like it ends cannot be closed
            let comment = v[5].starts_with(v[4].as_str()) || v[4].starts_with(v[5].as_str());
            // the end of a block is not an identifier character sequence
            let word = [&v[1], &v[3]].iter().any(|x| x.starts_with(|c: char| c.is_alphanumeric() || c == '_' || c >= '\u{80}'));
            if !prefix && !short && !comment && !word {
                return Syn(v);
            }
            if s.rec.len() > 400 {
                return Syn::default();
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Piece {
    /// the delimiter with this index
    D(usize),
    S(String),
}

fn render(pieces: &[Piece], syn: &Syn) -> String {
    pieces
        .iter()
        .map(|p| match p {
            Piece::D(i) => syn.0[*i].as_str(),
            Piece::S(s) => s.as_str(),
        })
        .collect()
}

// ---- canonical form of what the parser returns ----

fn cws(w: &Option<Whitespace>) -> &'static str {
    match w {
        None => ".",
        Some(Whitespace::Preserve) => "+",
        Some(Whitespace::Suppress) => "-",
        Some(Whitespace::Minimize) => "~",
    }
}

fn cw(w: &Ws) -> String {
    format!("<{}{}>", cws(&w.0), cws(&w.1))
}

fn list(xs: impl Iterator<Item = String>) -> String {
    xs.collect::<Vec<_>>().join(", ")
}

fn cfilter(f: &Filter<'_>) -> String {
    // the content of a filter block may be represented by a placeholder
    let args = f.arguments.iter().filter(|a| !matches!(a, Expr::Generated(_)));
    format!("filter {}[{}]", f.name, list(args.map(ce)))
}

fn ce(e: &Expr<'_>) -> String {
    match e {
        Expr::BoolLit(x) => format!("bool:{x}"),
        Expr::NumLit(x) => format!("num:{x}"),
        Expr::StrLit(x) => format!("str:{x}"),
        Expr::CharLit(x) => format!("char:{x}"),
        Expr::Var(x) => format!("var:{x}"),
        Expr::Path(p) => format!("path:{}", p.join("::")),
        Expr::Array(v) => format!("array[{}]", list(v.iter().map(ce))),
        Expr::Attr(x, a) => format!("attr({}, {a})", ce(x)),
        Expr::Index(x, i) => format!("index({}, {})", ce(x), ce(i)),
        Expr::Filter(f) => cfilter(f),
        Expr::NamedArgument(n, x) => format!("named({n}, {})", ce(x)),
        Expr::Unary(o, x) => format!("unary({o}, {})", ce(x)),
        Expr::BinOp(o, a, b) => format!("bin({o}, {}, {})", ce(a), ce(b)),
        Expr::Range(o, a, b) => {
            let f = |x: &Option<Box<Expr<'_>>>| x.as_ref().map_or("none".into(), |x| ce(x));
            format!("range({o}, {}, {})", f(a), f(b))
        }
        Expr::Group(x) => format!("group({})", ce(x)),
        Expr::Tuple(v) => format!("tuple[{}]", list(v.iter().map(ce))),
        Expr::Call(x, v) => format!("call({}, [{}])", ce(x), list(v.iter().map(ce))),
        Expr::RustMacro(p, a) => format!("macro({}, {})", p.join("::"), a),
        Expr::Try(x) => format!("try({})", ce(x)),
        Expr::Generated(x) => format!("generated:{x}"),
    }
}

fn ct(t: &Target<'_>) -> String {
    match t {
        Target::Name(n) => format!("name:{n}"),
        Target::Tuple(p, v) => format!("ttuple({}, [{}])", p.join("::"), list(v.iter().map(ct))),
        Target::Struct(p, v) => {
            format!("tstruct({}, [{}])", p.join("::"), list(v.iter().map(|(n, t)| format!("{n}: {}", ct(t)))))
        }
        Target::NumLit(x) => format!("num:{x}"),
        Target::StrLit(x) => format!("str:{x}"),
        Target::CharLit(x) => format!("char:{x}"),
        Target::BoolLit(x) => format!("bool:{x}"),
        Target::Path(p) => format!("tpath:{}", p.join("::")),
        Target::OrChain(v) => format!("or[{}]", list(v.iter().map(ct))),
    }
}

fn clit(l: &Lit<'_>) -> String {
    format!("{:?}{:?}{:?}", l.lws, l.val, l.rws)
}

fn lit_of(text: &str) -> String {
    let ws = |c: char| matches!(c, ' ' | '\t' | '\r' | '\n');
    let a = text.find(|c| !ws(c)).unwrap_or(text.len());
    let b = text.rfind(|c| !ws(c)).map_or(text.len(), |i| i + text[i..].chars().next().unwrap().len_utf8());
    format!("{:?}{:?}{:?}", &text[..a], &text[a..b], &text[b..])
}

fn cns(ns: &[Node<'_>], syn: &Syn) -> String {
    list(ns.iter().map(|n| cn(n, syn)))
}

fn cn(n: &Node<'_>, syn: &Syn) -> String {
    let b = |ns: &[Node<'_>]| cns(ns, syn);
    match n {
        Node::Lit(l) => format!("text({})", clit(l)),
        Node::Comment(c) => {
            let content = c.content.strip_suffix(syn.0[5].as_str()).unwrap_or("UNTERMINATED");
            format!("comment{}({content:?})", cw(&c.ws))
        }
        Node::Expr(w, e) => format!("expr{}({})", cw(w), ce(e)),
        Node::Call(c) => format!(
            "call{}({}, {}, [{}])",
            cw(&c.ws),
            c.scope.unwrap_or("none"),
            c.name,
            list(c.args.iter().map(ce))
        ),
        Node::Let(l) => format!("let{}({}, {})", cw(&l.ws), ct(&l.var), l.val.as_ref().map_or("none".into(), ce)),
        Node::If(i) => format!(
            "if[{}]end{}",
            list(i.branches.iter().map(|c| {
                let cond = match &c.cond {
                    None => "else".to_string(),
                    Some(c) => format!("({}, {})", c.target.as_ref().map_or("none".into(), ct), ce(&c.expr)),
                };
                format!("{}{cond}{{{}}}", cw(&c.ws), b(&c.nodes))
            })),
            cw(&i.ws)
        ),
        Node::Match(m) => format!(
            "match{}({})[{}]end{}",
            cw(&m.ws1),
            ce(&m.expr),
            list(m.arms.iter().map(|a| format!("{}{}{{{}}}", cw(&a.ws), ct(&a.target), b(&a.nodes)))),
            cw(&m.ws2)
        ),
        Node::Loop(l) => format!(
            "for{}({} in {} if {}){{{}}}{}{{{}}}end{}",
            cw(&l.ws1),
            ct(&l.var),
            ce(&l.iter),
            l.cond.as_ref().map_or("none".into(), ce),
            b(&l.body),
            cw(&l.ws2),
            b(&l.else_nodes),
            cw(&l.ws3)
        ),
        Node::Extends(e) => format!("extends({:?})", e.path),
        Node::BlockDef(d) => format!("block{}({}){{{}}}end{}", cw(&d.ws1), d.name, b(&d.nodes), cw(&d.ws2)),
        Node::Include(i) => format!("include{}({:?})", cw(&i.ws), i.path),
        Node::Import(i) => format!("import{}({:?}, {})", cw(&i.ws), i.path, i.scope),
        Node::Macro(m) => {
            format!("macro{}({}, {}){{{}}}end{}", cw(&m.ws1), m.name, m.args.join(","), b(&m.nodes), cw(&m.ws2))
        }
        Node::Raw(r) => format!("raw{}({})end{}", cw(&r.ws1), clit(&r.lit), cw(&r.ws2)),
        Node::Break(w) => format!("break{}", cw(w)),
        Node::Continue(w) => format!("continue{}", cw(w)),
        Node::FilterBlock(f) => format!("filterblock{}({}){{{}}}end{}", cw(&f.ws1), cfilter(&f.filters), b(&f.nodes), cw(&f.ws2)),
    }
}

// ---- generator: source and canonical form together ----

struct G<'a> {
    s: &'a mut Src,
    syns: Vec<Syn>,
    out: Vec<Piece>,
    /// budget of nodes and expressions
    fuel: usize,
    tags: Vec<&'static str>,
}

const NAMES: &[&str] = &["a", "b", "foo", "x1", "_y", "r", "true_", "none", "ifx", "élan", "中", "orx", "loop", "in_", "writer2", "selfish", "match1"];

impl G<'_> {
    fn sp(&mut self) -> &'static str {
        match self.s.below(8) {
            0..=4 => " ",
            5 | 6 => "",
            _ => "\n\t ",
        }
    }
    fn osp(&mut self) -> &'static str {
        match self.s.below(6) {
            0..=3 => "",
            4 => " ",
            _ => " \r\n",
        }
    }
    fn name(&mut self) -> String {
        self.s.pick(NAMES).to_string()
    }
    fn num(&mut self) -> String {
        self.s
            .pick(&["1", "0", "42", "1_000", "1.5", "2.0e3", "7u8", "0x_fF", "0b10i32", "1e-2", "3f64", "1.5_0f32", "0o17", "9isize", "1E+2f64", "1_u128"])
            .to_string()
    }
    fn str(&mut self) -> String {
        let n = self.s.len(4);
        (0..n).map(|_| self.s.pick(&["x", " ", "\\\"", "\\\\", "}}", "%}", "{{", "'", "é", "#", "\n", "\\n", "{%", ")", "\\u{41}"])).collect()
    }
    fn chr(&mut self) -> String {
        self.s.pick(&["a", "\\'", "\\\\", "\\n", "\\x41", "\\u{1F980}", "é", "\"", "}", "(", "\\0", " "]).to_string()
    }
    fn path(&mut self) -> String {
        self.s.pick(&["A", "Foo", "a::B", "std::u8::MAX", "::x::y", "crate::K", "Foo::Bar::Baz", "::z"]).to_string()
    }
    fn wsc(&mut self) -> (&'static str, &'static str) {
        match self.s.below(7) {
            0..=3 => ("", "."),
            4 => ("-", "-"),
            5 => ("+", "+"),
            _ => ("~", "~"),
        }
    }

    /// An expression that binds at least as tight as `min`: source and canonical form.
    fn e(&mut self, min: usize, d: usize) -> (String, String) {
        self.fuel = self.fuel.saturating_sub(1);
        let leaf = d == 0 || self.fuel == 0;
        let k = if leaf { self.s.below(6) } else { self.s.weighted(&[3, 2, 1, 1, 1, 1, 8, 3, 3, 3, 3, 2, 2, 2, 1, 1, 2]) };
        let (lvl, src, can) = match k {
            0 => {
                let n = self.name();
                (13, n.clone(), format!("var:{n}"))
            }
            1 => {
                let n = self.num();
                (13, n.clone(), format!("num:{n}"))
            }
            2 => {
                let x = self.str();
                (13, format!("\"{x}\""), format!("str:{x}"))
            }
            3 => {
                let x = self.chr();
                (13, format!("'{x}'"), format!("char:{x}"))
            }
            4 => {
                let x = self.s.pick(&["true", "false"]).to_string();
                (13, x.clone(), format!("bool:{x}"))
            }
            5 => {
                let p = self.path();
                let src = if self.s.chance(20) { p.replace("::", ":: ").replace(":: ", " :: ").trim_start().to_string() } else { p.clone() };
                (13, src, format!("path:{p}"))
            }
            6 => {
                const OPS: &[(&str, usize)] = &[
                    ("||", 1), ("&&", 2), ("==", 3), ("!=", 3), (">=", 3), (">", 3), ("<=", 3), ("<", 3), ("|", 4), ("^", 5), ("&", 6), (">>", 7),
                    ("<<", 7), ("+", 8), ("-", 8), ("*", 9), ("/", 9), ("%", 9),
                ];
                let (op, l) = self.s.of(OPS);
                self.tags.push("binop");
                let (mut a, mut ca) = self.e(l, d - 1);
                let (b, cb) = self.e(l + 1, d - 1);
                // `a|f | b` is a chain of filters
                if op == "|" && a.contains('|') {
                    a = format!("({a})");
                    ca = format!("group({ca})");
                }
                let (x, y) = if op == "|" { (" ", self.sp()) } else { (self.sp(), self.sp()) };
                (l, format!("{a}{x}{op}{y}{b}"), format!("bin({op}, {ca}, {cb})"))
            }
            7 => {
                let op = self.s.pick(&["!", "-"]);
                let (a, ca) = self.e(11, d - 1);
                let sp = self.osp();
                (11, format!("{op}{sp}{a}"), format!("unary({op}, {ca})"))
            }
            8 => {
                let (a, ca) = self.e(10, d - 1);
                let f = self.name();
                self.tags.push("filter");
                if self.s.chance(50) {
                    let (args, cargs) = self.args(d - 1, false);
                    let cargs = if cargs.is_empty() { ca } else { format!("{ca}, {cargs}") };
                    let sp = self.osp();
                    (10, format!("{a}|{sp}{f}({args})"), format!("filter {f}[{cargs}]"))
                } else {
                    let sp = self.osp();
                    (10, format!("{a}|{sp}{f}"), format!("filter {f}[{ca}]"))
                }
            }
            9 => {
                let (a, ca) = self.e(12, d - 1);
                let n = self.name();
                // `1.e2` would be a number
                let (a, ca) = if a.starts_with(|c: char| c.is_ascii_digit()) { (format!("({a})"), format!("group({ca})")) } else { (a, ca) };
                let (x, y) = (self.osp(), self.osp());
                (12, format!("{a}{x}.{y}{n}"), format!("attr({ca}, {n})"))
            }
            10 => {
                let (a, ca) = self.e(12, d - 1);
                let (args, cargs) = self.args(d - 1, false);
                let sp = self.osp();
                (12, format!("{a}{sp}({args})"), format!("call({ca}, [{cargs}])"))
            }
            11 => {
                let (a, ca) = self.e(12, d - 1);
                let (i, ci) = self.e(0, d - 1);
                let (x, y, z) = (self.osp(), self.osp(), self.osp());
                (12, format!("{a}{x}[{y}{i}{z}]"), format!("index({ca}, {ci})"))
            }
            12 => {
                let n = self.s.below(4);
                let mut v = vec![];
                let mut c = vec![];
                for _ in 0..n {
                    let (a, ca) = self.e(0, d - 1);
                    let (x, y) = (self.osp(), self.osp());
                    v.push(format!("{x}{a}{y}"));
                    c.push(ca);
                }
                let trail = if n > 0 && self.s.chance(30) { "," } else { "" };
                (13, format!("[{}{trail}]", v.join(",")), format!("array[{}]", c.join(", ")))
            }
            13 => {
                let n = self.s.below(4);
                let mut v = vec![];
                let mut c = vec![];
                for _ in 0..n {
                    let (a, ca) = self.e(0, d - 1);
                    let (x, y) = (self.osp(), self.osp());
                    v.push(format!("{x}{a}{y}"));
                    c.push(ca);
                }
                let trail = if n == 1 || (n > 1 && self.s.chance(30)) { "," } else { "" };
                (13, format!("({}{trail})", v.join(",")), format!("tuple[{}]", c.join(", ")))
            }
            14 => {
                let n = self.s.of(&["a", "format", "A::b", "foo::bar"]);
                let args = self.s.of(&["", "x", "a, (b), c", "\"a)\\\"(\", 1", "(()())", "x => y", " [1; 2] "]);
                let sp = self.osp();
                (12, format!("{n}{sp}!({args})"), format!("macro({n}, {args})"))
            }
            15 => {
                let (a, ca) = self.e(12, d - 1);
                let sp = self.osp();
                (12, format!("{a}{sp}?"), format!("try({ca})"))
            }
            _ => {
                let op = self.s.pick(&["..", "..="]);
                let l = if self.s.chance(75) { Some(self.e(1, d - 1)) } else { None };
                let r = if self.s.chance(75) { Some(self.e(1, d - 1)) } else { None };
                let f = |x: &Option<(String, String)>| x.as_ref().map_or(("".to_string(), "none".to_string()), |x| x.clone());
                let ((a, ca), (b, cb)) = (f(&l), f(&r));
                // `1..` is fine but `1 ...` is not
                let (x, y) = (self.osp(), self.osp());
                let src = match (l.is_some(), r.is_some()) {
                    (true, true) => format!("{a}{x}{op}{y}{b}"),
                    (true, false) => format!("{a}{x}{op}"),
                    (false, true) => format!("{op}{y}{b}"),
                    (false, false) => op.to_string(),
                };
                (0, src, format!("range({op}, {ca}, {cb})"))
            }
        };
        if lvl < min || (min > 0 && self.s.chance(4)) {
            let (x, y) = (self.osp(), self.osp());
            (format!("({x}{src}{y})"), format!("group({can})"))
        } else {
            (src, can)
        }
    }

    fn args(&mut self, d: usize, named: bool) -> (String, String) {
        let n = self.s.below(4);
        let mut v = vec![];
        let mut c = vec![];
        let from = if named { self.s.below(n + 1) } else { n };
        for i in 0..n {
            let (a, ca) = self.e(0, d);
            let (x, y) = (self.osp(), self.osp());
            if i >= from {
                let name = format!("{}{i}", self.name());
                let (p, q) = (self.osp(), self.osp());
                v.push(format!("{x}{name}{p}={q}{a}{y}"));
                c.push(format!("named({name}, {ca})"));
            } else {
                v.push(format!("{x}{a}{y}"));
                c.push(ca);
            }
        }
        let trail = if n > 0 && self.s.chance(15) { "," } else { "" };
        (format!("{}{trail}", v.join(",")), c.join(", "))
    }

    fn target(&mut self, d: usize) -> (String, String) {
        let k = if d == 0 { self.s.below(6) } else { self.s.below(11) };
        let n = self.s.below(4);
        let sub = |g: &mut Self, named: bool| {
            let mut v = vec![];
            let mut c = vec![];
            for i in 0..n {
                let (a, ca) = g.target(d - 1);
                let (x, y) = (g.osp(), g.osp());
                if named {
                    let f = format!("{}{i}", g.name());
                    if g.s.chance(40) {
                        v.push(format!("{x}{f}{y}"));
                        c.push(format!("{f}: name:{f}"));
                    } else {
                        v.push(format!("{x}{f}:{y}{a}"));
                        c.push(format!("{f}: {ca}"));
                    }
                } else {
                    v.push(format!("{x}{a}{y}"));
                    c.push(ca);
                }
            }
            (v, c.join(", "))
        };
        match k {
            0 | 1 => {
                let n = self.s.pick(&["a", "b", "foo", "_", "_x", "x1", "é", "or_"]);
                (n.to_string(), format!("name:{n}"))
            }
            2 => {
                let n = if self.s.chance(30) { format!("-{}", self.num()) } else { self.num() };
                (n.clone(), format!("num:{n}"))
            }
            3 => {
                let x = self.str();
                (format!("\"{x}\""), format!("str:{x}"))
            }
            4 => match self.s.chance(50) {
                true => ("true".into(), "bool:true".into()),
                false => {
                    let x = self.chr();
                    (format!("'{x}'"), format!("char:{x}"))
                }
            },
            5 => {
                let p = self.path();
                (p.clone(), format!("tpath:{p}"))
            }
            6 => {
                let (v, c) = sub(self, false);
                let trail = if v.len() == 1 || (v.len() > 1 && self.s.chance(30)) { "," } else { "" };
                (format!("({}{trail})", v.join(",")), format!("ttuple(, [{c}])"))
            }
            7 | 8 => {
                let p = self.path();
                let (v, c) = sub(self, false);
                let trail = if !v.is_empty() && self.s.chance(30) { "," } else { "" };
                let with = if self.s.chance(30) { " with " } else { self.osp() };
                (format!("{p}{with}({}{trail})", v.join(",")), format!("ttuple({p}, [{c}])"))
            }
            9 => {
                let p = self.path();
                let (v, c) = sub(self, true);
                let trail = if !v.is_empty() && self.s.chance(30) { "," } else { "" };
                let with = if self.s.chance(30) { " with " } else { " " };
                (format!("{p}{with}{{{}{trail}}}", v.join(",")), format!("tstruct({p}, [{c}])"))
            }
            _ => {
                let (a, ca) = self.target(d - 1);
                let (x, y) = (self.osp(), self.osp());
                (format!("({x}{a}{y})"), ca)
            }
        }
    }

    /// Target with `or`, as it may occur at the top level of a pattern.
    fn pattern(&mut self, d: usize) -> (String, String) {
        if self.s.chance(20) {
            let n = 2 + self.s.below(2);
            let v: Vec<_> = (0..n).map(|_| self.target(d)).collect();
            let src = v.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(" or ");
            (src, format!("or[{}]", list(v.into_iter().map(|x| x.1))))
        } else {
            self.target(d)
        }
    }

    fn put(&mut self, s: impl Into<String>) {
        self.out.push(Piece::S(s.into()));
    }

    /// `{%- inner ~%}`; returns the canonical controls.
    fn tag(&mut self, inner: &str) -> (&'static str, &'static str) {
        let (l, cl) = self.wsc();
        let (r, cr) = self.wsc();
        self.out.push(Piece::D(0));
        let sp = self.sp();
        let inner = inner.trim_end();
        // a control character must not merge with what is next to it
        let sp2 = if self.s.chance(80) || inner.ends_with(|c: char| !c.is_alphanumeric()) { " " } else { "" };
        self.put(format!("{l}{sp}{inner}{sp2}{r}"));
        self.out.push(Piece::D(1));
        (cl, cr)
    }

    fn text(&mut self, next_is_tag: bool) -> Option<String> {
        const PIECES: &[&str] = &[
            "a", "Hello", " ", "\n", "\t", "\r\n", "é", "日", "{", "}", "%", "}}", "%}", "#}", "<", "\\", "\"", "'", "{ {", "-", "\u{a0}", "\u{c}", "$", "#",
            "end", "<!", "\0",
        ];
        let n = 1 + self.s.below(5);
        let t: String = (0..n).map(|_| self.s.pick(PIECES)).collect();
        for syn in &self.syns {
            let full = |next: &str| format!("{t}{next}");
            let nexts: Vec<&str> = if next_is_tag { syn.starts().to_vec() } else { vec![""] };
            for next in nexts {
                let f = full(next);
                let first = syn.starts().iter().filter_map(|d| f.find(d)).min();
                if first.is_some_and(|i| i < t.len()) {
                    return None;
                }
            }
        }
        Some(t)
    }

    fn nodes(&mut self, d: usize, in_loop: bool) -> String {
        let n = self.s.len(5);
        let mut can = vec![];
        let mut last_text = false;
        for _ in 0..n {
            if !last_text && self.s.chance(45) {
                // (what follows is always some tag or the end of the input)
                let t = self.text(true).unwrap_or_else(|| " t ".into());
                can.push(format!("text({})", lit_of(&t)));
                self.put(t);
                last_text = true;
                continue;
            }
            can.push(self.node(d, in_loop));
            last_text = false;
        }
        can.join(", ")
    }

    fn node(&mut self, d: usize, in_loop: bool) -> String {
        self.fuel = self.fuel.saturating_sub(1);
        let k = if d == 0 || self.fuel == 0 {
            self.s.below(8)
        } else {
            self.s.weighted(&[4, 2, 2, 1, 1, 1, 1, 1, 4, 4, 4, 2, 2, 2, 2])
        };
        let ed = 1 + self.s.below(4);
        match k {
            0 => {
                let (l, cl) = self.wsc();
                let (r, cr) = self.wsc();
                let (src, can) = self.e(0, ed);
                self.out.push(Piece::D(2));
                let sp = if l.is_empty() && src.starts_with(['-', '+', '~']) { " " } else { self.sp() };
                let sp2 = self.sp();
                self.put(format!("{l}{sp}{src}{sp2}{r}"));
                self.out.push(Piece::D(3));
                format!("expr<{cl}{cr}>({can})")
            }
            1 => {
                let (t, ct) = self.pattern(2);
                let kw = self.s.pick(&["let", "set"]);
                if self.s.chance(80) {
                    let (e, c) = self.e(0, ed);
                    let (x, y) = (self.sp(), self.sp());
                    let (l, r) = self.tag(&format!("{kw} {t}{x}={y}{e}"));
                    format!("let<{l}{r}>({ct}, {c})")
                } else {
                    let (l, r) = self.tag(&format!("{kw} {t}"));
                    format!("let<{l}{r}>({ct}, none)")
                }
            }
            2 => {
                let n = self.name();
                let scope = self.s.chance(30).then(|| self.name());
                let mut src = "call ".to_string();
                if let Some(s) = &scope {
                    let (x, y) = (self.osp(), self.osp());
                    src += &format!("{s}{x}::{y}");
                }
                src += &n;
                let mut args = String::new();
                if self.s.chance(80) {
                    let (a, c) = self.args(ed, true);
                    src += &format!("{}({a})", self.osp());
                    args = c;
                }
                let (l, r) = self.tag(&src);
                format!("call<{l}{r}>({}, {n}, [{args}])", scope.as_deref().unwrap_or("none"))
            }
            3 => {
                let p = self.str();
                match self.s.below(3) {
                    0 => {
                        let sp = self.sp();
                        let (l, r) = self.tag(&format!("include{sp}\"{p}\""));
                        format!("include<{l}{r}>({p:?})")
                    }
                    1 => {
                        let n = self.name();
                        let (l, r) = self.tag(&format!("import \"{p}\" as {n}"));
                        format!("import<{l}{r}>({p:?}, {n})")
                    }
                    _ => {
                        self.out.push(Piece::D(0));
                        let (a, b) = (self.sp(), self.sp());
                        self.put(format!("{a}extends{b}\"{p}\"{a}"));
                        self.out.push(Piece::D(1));
                        format!("extends({p:?})")
                    }
                }
            }
            4 | 5 => {
                // comment
                let (l, cl) = self.wsc();
                let (r, cr) = self.wsc();
                self.out.push(Piece::D(4));
                let start = self.out.len();
                let inner = self.comment(2);
                let content = format!("{l} {inner} {r}");
                let _ = content;
                self.out.insert(start, Piece::S(format!("{l} ")));
                self.put(format!(" {r}"));
                self.out.push(Piece::D(5));
                // nested comments are spelled with the delimiters of the syntax: \u{1} and \u{2}
                format!("comment<{cl}{cr}>({:?})", format!(" {inner} {r}"))
            }
            6 => {
                let body = self.raw_text();
                let (a, b) = self.tag("raw");
                self.put(body.clone());
                let (c, e) = self.tag("endraw");
                format!("raw<{a}{b}>({})end<{c}{e}>", lit_of(&body))
            }
            7 => {
                if in_loop {
                    let k = self.s.pick(&["break", "continue"]);
                    let (l, r) = self.tag(k);
                    format!("{k}<{l}{r}>")
                } else {
                    let (l, r) = self.tag("include \"x\"");
                    format!("include<{l}{r}>(\"x\")")
                }
            }
            8 => {
                self.tags.push("if");
                let n = 1 + self.s.below(3);
                let mut can = vec![];
                for i in 0..n {
                    let (e, mut c) = self.e(0, ed);
                    let mut src = e;
                    let mut t = "none".to_string();
                    if self.s.chance(35) {
                        let (p, cp) = self.pattern(2);
                        src = format!("let {p} = {src}");
                        t = cp;
                    }
                    c = format!("({t}, {c})");
                    let kw = if i == 0 { "if" } else { self.s.pick(&["else if", "elif", "else  if"]) };
                    let (l, r) = self.tag(&format!("{kw} {src}"));
                    let b = self.nodes(d - 1, in_loop);
                    can.push(format!("<{l}{r}>{c}{{{b}}}"));
                }
                if self.s.chance(50) {
                    let (l, r) = self.tag("else");
                    let b = self.nodes(d - 1, in_loop);
                    can.push(format!("<{l}{r}>else{{{b}}}"));
                }
                let (l, r) = self.tag("endif");
                format!("if[{}]end<{l}{r}>", can.join(", "))
            }
            9 => {
                self.tags.push("for");
                let (t, ctt) = self.pattern(2);
                let (mut e, mut c) = self.e(0, ed);
                let mut cond = "none".to_string();
                let mut src;
                if self.s.chance(40) {
                    if e.ends_with('.') || e.ends_with('=') {
                        e = format!("({e})");
                        c = format!("group({c})");
                    }
                    let (f, cf) = self.e(0, ed);
                    src = format!("for {t} in {e} if {f}");
                    cond = cf;
                } else {
                    src = format!("for {t} in {e}");
                }
                if self.s.chance(10) {
                    src = src.replacen(" in ", "\n in\t", 1);
                }
                let (l1, r1) = self.tag(&src);
                let body = self.nodes(d - 1, true);
                let (mut els, mut w2r, mut w3l) = (String::new(), ".", ".");
                let w2l;
                let w3r;
                if self.s.chance(40) {
                    let (l, r) = self.tag("else");
                    w2l = l;
                    w2r = r;
                    els = self.nodes(d - 1, in_loop);
                    let (l, r) = self.tag("endfor");
                    w3l = l;
                    w3r = r;
                } else {
                    let (l, r) = self.tag("endfor");
                    w2l = l;
                    w3r = r;
                }
                format!("for<{l1}{r1}>({ctt} in {c} if {cond}){{{body}}}<{w2l}{w2r}>{{{els}}}end<{w3l}{w3r}>")
            }
            10 => {
                self.tags.push("match");
                let (e, c) = self.e(0, ed);
                let (l1, r1) = self.tag(&format!("match {e}"));
                if self.s.chance(30) {
                    self.put(" \n");
                    if self.s.chance(50) {
                        self.out.push(Piece::D(4));
                        self.put(" c ");
                        self.out.push(Piece::D(5));
                        self.put("\n");
                    }
                }
                let n = 1 + self.s.below(3);
                let mut can = vec![];
                for _ in 0..n {
                    let (t, cp) = self.pattern(3);
                    let (l, r) = self.tag(&format!("when {t}"));
                    let b = self.nodes(d - 1, in_loop);
                    can.push(format!("<{l}{r}>{cp}{{{b}}}"));
                }
                if self.s.chance(50) {
                    let (l, r) = self.tag("else");
                    let b = self.nodes(d - 1, in_loop);
                    can.push(format!("<{l}{r}>name:_{{{b}}}"));
                }
                let (l, r) = self.tag("endmatch");
                format!("match<{l1}{r1}>({c})[{}]end<{l}{r}>", can.join(", "))
            }
            11 => {
                let n = self.name();
                let (l1, r1) = self.tag(&format!("block {n}"));
                let b = self.nodes(d - 1, in_loop);
                let end = if self.s.chance(50) { format!("endblock {n}") } else { "endblock".into() };
                let (l2, r2) = self.tag(&end);
                format!("block<{l1}{r1}>({n}){{{b}}}end<{l2}{r2}>")
            }
            12 => {
                let n = self.name();
                let k = self.s.below(4);
                let ps: Vec<String> = (0..k).map(|_| self.name()).collect();
                let (x, y) = (self.osp(), self.osp());
                let mut src = format!("macro {n}");
                if k > 0 || self.s.chance(60) {
                    let trail = if k > 0 && self.s.chance(20) { "," } else { "" };
                    src += &format!("{x}({}{trail})", ps.iter().map(|p| format!("{y}{p}{x}")).collect::<Vec<_>>().join(","));
                }
                let (l1, r1) = self.tag(&src);
                let b = self.nodes(d - 1, in_loop);
                let end = if self.s.chance(50) { format!("endmacro {n}") } else { "endmacro".into() };
                let (l2, r2) = self.tag(&end);
                format!("macro<{l1}{r1}>({n}, {}){{{b}}}end<{l2}{r2}>", ps.join(","))
            }
            13 | 14 => {
                self.tags.push("filterblock");
                let n = 1 + self.s.below(3);
                let mut src = String::from("filter ");
                let mut can = String::new();
                for i in 0..n {
                    let f = self.name();
                    let mut c = if i > 0 { vec![can.clone()] } else { vec![] };
                    if i > 0 {
                        src += "|";
                    }
                    src += &f;
                    if self.s.chance(40) {
                        let (a, ca) = self.args(1, false);
                        src += &format!("({a})");
                        if !ca.is_empty() {
                            c.push(ca);
                        }
                    }
                    can = format!("filter {f}[{}]", c.join(", "));
                }
                let (l1, r1) = self.tag(&src);
                let b = self.nodes(d - 1, in_loop);
                let (l2, r2) = self.tag("endfilter");
                format!("filterblock<{l1}{r1}>({can}){{{b}}}end<{l2}{r2}>")
            }
            _ => unreachable!(),
        }
    }

    /// Content of a comment; \u{1} and \u{2} stand for the delimiters of nested comments.
    fn comment(&mut self, d: usize) -> String {
        let n = self.s.below(4);
        let mut o = String::new();
        for _ in 0..n {
            if d > 0 && self.s.chance(25) {
                self.out.push(Piece::D(4));
                o.push('\u{1}');
                let inner = self.comment(d - 1);
                o.push_str(&inner);
                self.out.push(Piece::D(5));
                o.push('\u{2}');
            } else {
                let p = self.s.pick(&["x", " ", "\n", "word ", "0", "{ %", "é"]);
                let bad = self.syns.iter().any(|y| [&y.0[4], &y.0[5]].iter().any(|d| d.contains(p.trim()) && !p.trim().is_empty()));
                let p = if bad { " " } else { p };
                self.put(format!("{p} "));
                o.push_str(p);
                o.push(' ');
            }
        }
        o
    }

    fn raw_text(&mut self) -> String {
        let n = self.s.len(5);
        let t: String = (0..n)
            .map(|_| self.s.pick(&["a", " ", "\n", "{{ x }}", "{% if %}", "{#", "\\", "é", "\"", "raw", "endraw", "{%", "%}"]))
            .collect();
        // must not contain (or form) an end tag in any of the syntaxes
        for syn in &self.syns {
            let whole = format!("{t}{}", syn.0[0]);
            let mut from = 0;
            while let Some(i) = whole[from..].find(syn.0[0].as_str()) {
                let at = from + i;
                if at < t.len() {
                    let after = whole[at + syn.0[0].len()..].trim_start_matches(['-', '+', '~']).trim_start();
                    if after.starts_with("endraw") || at + syn.0[0].len() > t.len() {
                        return "plain".into();
                    }
                }
                from = at + whole[at..].chars().next().unwrap().len_utf8();
            }
        }
        t
    }
}

#[derive(Debug)]
struct Tree {
    syns: Vec<Syn>,
    pieces: Vec<Piece>,
    canon: String,
    tags: Vec<&'static str>,
}

fn gen_tree(s: &mut Src) -> Tree {
    let mut syns = vec![Syn::default()];
    for _ in 0..s.below(3) {
        syns.push(Syn::gen(s));
    }
    let fuel = 3 + s.below(30);
    let d = s.below(4);
    let mut g = G { s, syns, out: vec![], fuel, tags: vec![] };
    let canon = g.nodes(d, false);
    let (out, syns, tags) = (g.out, g.syns, g.tags);
    Tree { syns, pieces: out, canon, tags }
}

fn check_tree(t: &Tree) -> Check {
    for syn in &t.syns {
        let src = render(&t.pieces, syn);
        let ast = Ast::from_str(&src, None, &syn.syntax()).map_err(|e| format!("{src:?} with {:?} is rejected: {e}", syn.0))?;
        // nested comments are spelled with the delimiters of this syntax
        let want = t.canon.replace("\\u{1}", &esc(&syn.0[4])).replace("\\u{2}", &esc(&syn.0[5]));
        let got = cns(ast.nodes(), syn);
        if got != want {
            return Err(format!("{src:?} with {:?}\n   parsed as {got}\n  instead of {want}", syn.0));
        }
        let p = Parsed::new(src.clone(), None, &syn.syntax()).map_err(|e| e.to_string())?;
        if p.nodes() != ast.nodes() {
            return Err(format!("{src:?}: Parsed and Ast differ"));
        }
    }
    let mut tags = t.tags.clone();
    tags.sort();
    tags.dedup();
    if t.syns.len() > 1 {
        tags.push("several_syntaxes");
    }
    ok(t.pieces.len() > 3, tags)
}

fn esc(s: &str) -> String {
    let d = format!("{s:?}");
    d[1..d.len() - 1].to_string()
}

pub fn c21() -> Vec<Box<dyn SubDyn>> {
    vec![
        Box::new(Sub { name: "trees", quick: 400_000, gen: gen_tree, check: check_tree }),
        Box::new(Sub {
            name: "expressions",
            quick: 400_000,
            gen: |s| {
                let fuel = 3 + s.below(25);
                let mut g = G { s, syns: vec![Syn::default()], out: vec![], fuel, tags: vec![] };
                let d = 2 + g.s.below(5);
                let (src, can) = g.e(0, d);
                Tree {
                    syns: g.syns,
                    pieces: vec![Piece::D(2), Piece::S(format!(" {src} ")), Piece::D(3), Piece::S(String::new())],
                    canon: format!("expr<..>({can})"),
                    tags: g.tags,
                }
            },
            check: check_tree,
        }),
    ]
}

// ---- C20 ----

#[derive(Debug)]
struct Input {
    src: String,
    syn: Syn,
    kind: &'static str,
}

const TOKENS: &[&str] = &[
    "{{", "}}", "{%", "%}", "{#", "#}", " ", "\n", "-", "+", "~", "if", "else", "elif", "endif", "for", "in", "endfor", "match", "when", "endmatch", "let",
    "set", "block", "endblock", "macro", "endmacro", "call", "include", "import", "as", "extends", "raw", "endraw", "filter", "endfilter", "break",
    "continue", "a", "b", "self", "writer", "super", "loop", "_", "X", "or", "with", "(", ")", "[", "]", "{", "}", ",", ".", "..", "..=", ":", "::", "|", "||",
    "&", "&&", "^", "<", ">", "<<", ">>", "==", "!=", "!", "=", "*", "/", "%", "?", "1", "0x", "1.", "1e", "\"", "\"s\"", "'", "'c'", "'\\u{110000}'", "\\",
    "é", "\0", "\u{feff}", "0b2", "1_", "'''", "'\\'", "\"\\", "{{-", "-}}", "{%+", "~%}", "r#a", "🦀", "=>", "$", "@", "#", ";",
];

fn gen_input(s: &mut Src) -> Input {
    let syn = if s.chance(25) { Syn::gen(s) } else { Syn::default() };
    let (src, kind) = match s.below(6) {
        0 => {
            let n = s.len(60);
            let b: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            (String::from_utf8_lossy(&b).into_owned(), "bytes")
        }
        1 | 2 => {
            let n = s.len(40);
            let mut o = String::new();
            for _ in 0..n {
                if s.chance(15) {
                    o.push_str(&syn.0[s.below(6)].clone());
                } else {
                    o.push_str(s.pick(TOKENS));
                }
                if s.chance(30) {
                    o.push(' ');
                }
            }
            (o, "tokens")
        }
        3 => {
            // a tag with arbitrary content
            let (a, b) = s.of(&[(0usize, 1usize), (2, 3), (2, 3), (4, 5)]);
            let n = s.len(14);
            let mut o = syn.0[a].clone();
            if a == 0 {
                o += s.pick(&[" if ", " for ", " match ", " when ", " let ", " call ", " macro ", " filter ", " block ", " include ", " import "]);
            }
            for _ in 0..n {
                o.push_str(s.pick(TOKENS));
                if s.chance(50) {
                    o.push(' ');
                }
            }
            o += &syn.0[b];
            if s.chance(50) {
                o += "x";
            }
            (o, "tag")
        }
        _ => {
            let fuel = 3 + s.below(25);
            let d = s.below(4);
            let mut g = G { s, syns: vec![syn.clone()], out: vec![], fuel, tags: vec![] };
            g.nodes(d, false);
            let pieces = g.out;
            let src = render(&pieces, &syn);
            let mut v: Vec<char> = src.chars().collect();
            for _ in 0..1 + s.below(4) {
                if v.is_empty() {
                    break;
                }
                let i = s.below(v.len());
                match s.below(6) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v.truncate(i),
                    2 => {
                        let t: Vec<char> = s.pick(TOKENS).chars().collect();
                        v.splice(i..i, t);
                    }
                    3 => {
                        let j = (i + 1 + s.below(20)).min(v.len());
                        v.drain(i..j);
                    }
                    4 => {
                        let j = (i + 1 + s.below(20)).min(v.len());
                        let part: Vec<char> = v[i..j].to_vec();
                        let k = s.below(v.len());
                        v.splice(k..k, part);
                    }
                    _ => v[i] = any_char(s),
                }
            }
            (v.into_iter().collect(), "mutated")
        }
    };
    Input { src, syn, kind }
}

fn outcome(src: &str, syn: &Syn) -> Result<String, ParseError> {
    Ast::from_str(src, None, &syn.syntax()).map(|a| cns(a.nodes(), syn))
}

fn check_input(i: &Input) -> Check {
    let a = outcome(&i.src, &i.syn);
    let b = outcome(&i.src, &i.syn);
    if a != b {
        return Err(format!("different results for {:?}: {a:?} and {b:?}", i.src));
    }
    if let Err(e) = &a {
        let _ = e.to_string();
        if matches!(e, ParseError::Incomplete) {
            return Err("the result is `incomplete`".into());
        }
    }
    match Parsed::new(i.src.clone(), None, &i.syn.syntax()) {
        Ok(p) => {
            if a.as_ref().ok() != Some(&cns(p.nodes(), &i.syn)) {
                return Err(format!("Parsed differs for {:?}", i.src));
            }
        }
        Err(e) => {
            if a.as_ref().err() != Some(&e) {
                return Err(format!("Parsed differs for {:?}", i.src));
            }
        }
    }
    let special = i.syn.starts().iter().any(|d| i.src.contains(d));
    ok(special, vec![i.kind, if a.is_ok() { "accepted" } else { "rejected" }])
}

/// Deep or long repetitions.
#[derive(Debug)]
struct Deep {
    pre: &'static str,
    rep: Vec<&'static str>,
    n: usize,
    mid: &'static str,
    close: Vec<&'static str>,
    closed: usize,
    post: &'static str,
}

fn gen_deep(s: &mut Src) -> Deep {
    const E: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("!", ""), ("-", ""), ("a(", ")"), ("a[", "]"), ("a|f(", ")"), ("(1,", ")"), ("a.b(", ")"), ("x==(", ")"), ("..(", ")"), ("! ", ""),
        ("1+(", ")"), ("a?.b(", ")"), ("m!(", ")"), ("a&&!(", ")"), ("[[", "]]"), ("((", "))"), ("(-", ")"), ("a.b", ""), ("a+", ""), ("a|b|", ""), ("a?", ""),
    ];
    const T: &[(&str, &str)] = &[("(", ")"), ("A(", ")"), ("A {a: ", "}"), ("(a, ", ")"), ("A with (", ")"), ("a or (", ")"), ("::A(", ")"), ("a or ", "")];
    const B: &[(&str, &str)] = &[
        ("{% if a %}", "{% endif %}"), ("{% for a in b %}", "{% endfor %}"), ("{% match a %}{% when b %}", "{% endmatch %}"), ("{% block a %}", "{% endblock %}"),
        ("{% macro a() %}", "{% endmacro %}"), ("{% filter a %}", "{% endfilter %}"), ("{#", "#}"), ("{% if a %}{% else %}", "{% endif %}"),
        ("{% for a in b %}{% else %}", "{% endfor %}"), ("{% if a %}{% endif %}", ""), ("{{ a }}", ""), ("{", ""), ("{# #}", ""), ("{% raw %}{% endraw %}", ""),
        ("{% match a %}{% else %}", "{% endmatch %}"), ("{% if let (a, b) = c %}x", "{% endif %}"), ("{% raw %}", "{% endraw %}"), ("\n", ""),
        ("{% if a %}{% elif b %}", "{% endif %}"), ("{#{#", "#}#}"),
    ];
    let (pool, pre, mid, post): (&[(&str, &str)], &'static str, &'static str, &'static str) = match s.below(8) {
        0 | 1 | 2 => {
            let (pre, post) = s.of(&[("{{ ", " }}"), ("{% if ", " %}x{% endif %}"), ("{% let a = ", " %}"), ("{% call m(", ") %}"), ("{% for a in ", " %}{% endfor %}"), ("{{ a|f(", ") }}")]);
            (E, pre, "a", post)
        }
        3 | 4 => {
            let (pre, post) = s.of(&[("{% let ", " = a %}"), ("{% match a %}{% when ", " %}{% endmatch %}"), ("{% if let ", " = a %}{% endif %}"), ("{% for ", " in a %}{% endfor %}")]);
            (T, pre, "a", post)
        }
        _ => (B, "", "x", ""),
    };
    let k = 1 + s.below(2);
    let mut rep = vec![];
    let mut close = vec![];
    for _ in 0..k {
        let (a, b) = s.of(pool);
        rep.push(a);
        close.insert(0, b);
    }
    let n = match s.below(5) {
        0 => s.below(8),
        1 => s.below(70),
        2 => 100 + s.below(60),
        3 => s.below(1500),
        _ => 1000 + s.below(9000),
    };
    let closed = if s.chance(60) { n } else { s.below(n + 1) };
    Deep { pre, rep, n, mid, close, closed, post }
}

fn check_deep(d: &Deep) -> Check {
    let mut src = String::from(d.pre);
    for _ in 0..d.n {
        d.rep.iter().for_each(|r| src.push_str(r));
    }
    src.push_str(d.mid);
    for _ in 0..d.closed {
        d.close.iter().for_each(|r| src.push_str(r));
    }
    src.push_str(d.post);
    let a = Parsed::new(src.clone(), None, &Syntax::default()).map(|_| ());
    let b = Ast::from_str(&src, None, &Syntax::default()).map(|_| ());
    if a != b {
        return Err(format!("different results: {a:?} and {b:?}"));
    }
    // with a second syntax that is the same
    ok(d.n > 50, vec![if a.is_ok() { "accepted" } else { "rejected" }, if d.n > 128 { "beyond_limit" } else { "within_limit" }])
}

pub fn c20() -> Vec<Box<dyn SubDyn>> {
    vec![
        Box::new(Sub { name: "inputs", quick: 900_000, gen: gen_input, check: check_input }),
        Box::new(Sub { name: "deep", quick: 6_000, gen: gen_deep, check: check_deep }),
    ]
}

// ---- C22 ----

#[derive(Debug)]
struct Bad {
    syn: Syn,
    prefix: String,
    prefix2: String,
    tag: String,
    suffix: String,
    kind: &'static str,
    file: bool,
}

fn gen_prefix(s: &mut Src, syn: &Syn) -> String {
    let fuel = s.below(12);
    let d = s.below(3);
    let mut g = G { s, syns: vec![syn.clone()], out: vec![], fuel, tags: vec![] };
    g.nodes(d, false);
    // (text at the end of the prefix cannot merge with the tag that follows: `text` looks at that)
    render(&g.out, syn)
}

fn gen_bad(s: &mut Src) -> Bad {
    let syn = if s.chance(30) { Syn::gen(s) } else { Syn::default() };
    let prefix = gen_prefix(s, &syn);
    let prefix2 = match s.below(3) {
        0 => String::new(),
        _ => gen_prefix(s, &syn),
    };
    let (tag, kind) = if s.chance(60) {
        const BAD: &[&str] = &[
            "‹ a b ›", "‹ ›", "‹ (a ›", "‹ a", "‹ a.", "‹ a. ›", "‹ a[0 ›", "‹ f(a ›", "‹ 'ab' ›", "‹ '' ›", "‹ '\\u{110000}' ›", "‹ '\\q' ›", "‹ \"x ›", "‹ a|f( ›",
            "‹ 1+ ›", "‹ a ? b ›", "‹-", "‹ a -", "« if »", "« if a »", "« if a »x«else»", "« for x »", "« for x in »", "« for x in y »x", "« endif »", "« endfor »",
            "« else »", "« foo »", "« »", "«", "« match a »« endmatch »", "« match a »x« when b »« endmatch »", "« block »", "« block a »x« endblock b »",
            "« macro super() »« endmacro »", "« macro m(a »", "« macro m() »« endmacro n »", "« call »", "« call m(a=1, a=2) »", "« call m(a=1, 2) »",
            "« include x »", "« include »", "« import \"x\" »", "« import \"x\" as »", "«- extends \"x\" »", "« extends x »", "« break »", "« continue »",
            "« let self = 1 »", "« let writer = 1 »", "« let »", "« let a = »", "« if let x »« endif »", "« filter »", "« filter f »", "« raw »", "¤ never closed",
            "¤ {", "‹ a\n\n b ›", "« if a »\nline\n« elif »« endif »", "« for x in y »\n\n« endif »", "« when x »", "‹ m!(a ›", "‹ ((((( ›", "‹ a | ›", "‹ a..\n..b ›",
            "« let (a, = b »", "« let A { a: } = b »", "‹ é ü ›", "« if é ü »", "‹ 1.5.6.7 a ›", "« match a »« else »x« endmatch »", "‹ !! ›", "‹ a && ›",
            "« if a »‹ b ›\n‹ c d ›\n« endif »", "« for i in x »« if y »\n  « foo »« endif »« endfor »",
        ];
        let t = s.pick(BAD);
        let mut o = String::new();
        for c in t.chars() {
            match c {
                '«' => o.push_str(&syn.0[0]),
                '»' => o.push_str(&syn.0[1]),
                '‹' => o.push_str(&syn.0[2]),
                '›' => o.push_str(&syn.0[3]),
                '¤' => o.push_str(&syn.0[4]),
                c => o.push(c),
            }
        }
        (o, "known_bad")
    } else {
        // a random tag
        let a = s.of(&[0usize, 2, 0, 2, 4]);
        let mut o = syn.0[a].clone();
        for _ in 0..s.len(12) {
            o.push_str(s.pick(TOKENS));
            if s.chance(50) {
                o.push(' ');
            }
        }
        if s.chance(70) {
            o += &syn.0[a + 1];
        }
        (o, "random")
    };
    let suffix = match s.below(3) {
        0 => String::new(),
        1 => any_string(s, 60),
        _ => gen_prefix(s, &syn),
    };
    Bad { syn, prefix, prefix2, tag, suffix, kind, file: s.chance(30) }
}

/// The offset that a parse error stands for.
fn locate(src: &str, e: &ParseError) -> Result<usize, String> {
    let ParseError::Details { row, column, source_after, .. } = e else {
        return Err(format!("no details: {e:?}"));
    };
    let mut off = 0;
    for _ in 0..*row {
        off += src[off..].find('\n').ok_or_else(|| format!("row {row} is not in {src:?}"))? + 1;
    }
    let line = &src[off..];
    let end = line.find('\n').unwrap_or(line.len());
    let mut it = line[..end].char_indices().map(|(i, _)| i).chain([end]);
    let col = it.nth(*column).ok_or_else(|| format!("column {column} is not in row {row} of {src:?}"))?;
    off += col;
    let rest = &src[off..];
    let want = match rest.char_indices().nth(40) {
        Some((i, _)) => format!("{:?}...", &rest[..i]),
        None => format!("{rest:?}"),
    };
    if &want != source_after {
        return Err(format!("row {row}, column {column} of {src:?} is at {want} but the error quotes {source_after}"));
    }
    Ok(off)
}

fn check_bad(b: &Bad) -> Check {
    let parse = |src: &str| {
        let path = b.file.then(|| std::path::Path::new("no/such/template.html").into());
        Ast::from_str(src, path, &b.syn.syntax()).map(|_| ())
    };
    for p in [&b.prefix, &b.prefix2] {
        if let Err(e) = parse(p) {
            return Err(format!("the valid prefix {p:?} is rejected: {e}"));
        }
    }
    let src = format!("{}{}{}", b.prefix, b.tag, b.suffix);
    let Err(e) = parse(&src) else {
        return match b.kind {
            "known_bad" if b.suffix.is_empty() => Err(format!("{src:?} is accepted")),
            _ => ok(false, vec!["accepted"]),
        };
    };
    let off = locate(&src, &e)?;
    if off < b.prefix.len() {
        return Err(format!("the error in {src:?} is reported at offset {off}, before the malformed tag at {}: {e}", b.prefix.len()));
    }
    // the location that is shown is the same one
    let ParseError::Details { row, column, .. } = &e else { unreachable!() };
    let shown = e.to_string();
    let loc = match b.file {
        true => format!("no/such/template.html:{}:{column}\n", row + 1),
        false => format!("at row {}, column {column} near:\n", row + 1),
    };
    if !shown.contains(&loc) {
        return Err(format!("{loc:?} is not in {shown:?}"));
    }
    // other valid text before it shifts the location and nothing else
    let src2 = format!("{}{}{}", b.prefix2, b.tag, b.suffix);
    let Err(e2) = parse(&src2) else {
        return Err(format!("{src:?} is rejected but {src2:?} is accepted"));
    };
    let off2 = locate(&src2, &e2)?;
    if off - b.prefix.len() != off2.wrapping_sub(b.prefix2.len()) {
        return Err(format!(
            "the error is at {} behind the prefix {:?} but at {} behind {:?}; tag {:?}",
            off - b.prefix.len(),
            b.prefix,
            off2 as i64 - b.prefix2.len() as i64,
            b.prefix2,
            b.tag
        ));
    }
    let (ParseError::Details { message: m, .. }, ParseError::Details { message: m2, .. }) = (&e, &e2) else { unreachable!() };
    if m != m2 {
        return Err(format!("different messages {m:?} and {m2:?}"));
    }
    ok(b.prefix.contains('\n') || *row > 0, vec![b.kind, if *row > 0 { "later_row" } else { "first_row" }])
}

pub fn c22() -> Vec<Box<dyn SubDyn>> {
    vec![Box::new(Sub { name: "errors", quick: 500_000, gen: gen_bad, check: check_bad })]
}
