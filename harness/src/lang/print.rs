//! Prints trees as template source and decides which whitespace is left.
use super::ast::*;

enum Item {
    Text(usize),
    Tag(Tag),
}

struct Printer<'a> {
    d: &'a Delims,
    texts: &'a mut Vec<String>,
    out: String,
    items: Vec<Item>,
    /// start of the last text in `out` if nothing was written after it
    last_text: Option<(usize, usize)>,
}

/// Strength of the binding of an expression; higher binds tighter.
fn level(e: &Ex) -> u8 {
    match e {
        Ex::Range(..) => 0,
        Ex::Bin(op, ..) => op_level(op),
        Ex::Filt(..) => 10,
        Ex::Un(..) => 11,
        Ex::Lit(Val::I(x), _) if *x < 0 => 11,
        _ => 12,
    }
}

pub fn op_level(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "==" | "!=" | "<" | "<=" | ">" | ">=" => 3,
        "|" => 4,
        "^" => 5,
        "&" => 6,
        "<<" | ">>" => 7,
        "+" | "-" => 8,
        _ => 9,
    }
}

fn paren(e: &Ex, min: u8) -> String {
    let s = ex(e);
    match level(e) < min {
        true => format!("({s})"),
        false => s,
    }
}

fn list(es: &[Ex]) -> String {
    es.iter().map(ex).collect::<Vec<_>>().join(", ")
}

thread_local! {
    static TOO_DEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether an expression was nested so deeply that the parser refuses it since the last call.
pub fn too_deep() -> bool {
    TOO_DEEP.with(|t| t.take())
}

pub fn ex(e: &Ex) -> String {
    let s = ex1(e);
    let (mut depth, mut max) = (0i32, 0);
    for c in s.bytes() {
        match c {
            b'(' | b'[' => depth += 1,
            b')' | b']' => depth -= 1,
            _ => {}
        }
        max = max.max(depth);
    }
    if max > 6 {
        TOO_DEEP.with(|t| t.set(true));
    }
    s
}

fn ex1(e: &Ex) -> String {
    match e {
        Ex::Lit(_, s) => s.clone(),
        Ex::Var(n) => n.clone(),
        Ex::Slf(n) => format!("self.{n}"),
        Ex::Attr(x, a) => format!("{}.{a}", paren(x, 12)),
        Ex::Idx(x, i) => format!("{}[{}]", paren(x, 12), ex(i)),
        Ex::Bin(op, a, b) => {
            let l = op_level(op);
            // comparisons do not associate
            let left = if l == 3 { 4 } else { l };
            format!("{} {op} {}", paren(a, left), paren(b, l + 1))
        }
        // two minus signs or a minus before a control character need no space inside of a tag
        Ex::Un(op, x) => format!("{op}{}", paren(x, 12)),
        Ex::Call(f, args) => format!("{f}({})", list(args)),
        Ex::Meth(x, m, args) => format!("{}.{m}({})", paren(x, 12), list(args)),
        Ex::Filt(x, f, args) if args.is_empty() => format!("{}|{f}", paren(x, 10)),
        Ex::Filt(x, f, args) => format!("{}|{f}({})", paren(x, 10), list(args)),
        Ex::Range(a, b, incl) => format!("{}{}{}", paren(a, 1), if *incl { "..=" } else { ".." }, paren(b, 1)),
        Ex::Arr(es) => format!("[{}]", list(es)),
        Ex::Tup(es) if es.len() == 1 => format!("({},)", ex(&es[0])),
        Ex::Tup(es) => format!("({})", list(es)),
        Ex::Group(x) => format!("({})", ex(x)),
        Ex::Loop(a) => format!("loop.{a}"),
        Ex::Cycle(es) => format!("loop.cycle([{}])", list(es)),
        Ex::Try(x) => format!("{}?", paren(x, 12)),
        Ex::Format(f, es) => format!("format!({f:?}, {})", list(es)),
    }
}

pub fn pat(p: &Pat) -> String {
    match p {
        Pat::Wild => "_".into(),
        Pat::Name(n) => n.clone(),
        Pat::Lit(_, s) => s.clone(),
        Pat::Tup(ps) if ps.len() == 1 => format!("({},)", pat(&ps[0])),
        Pat::Tup(ps) => format!("({})", ps.iter().map(pat).collect::<Vec<_>>().join(", ")),
        Pat::Some(p) => format!("Some({})", pat(p)),
        Pat::None => "None".into(),
        Pat::EA => "E::A".into(),
        Pat::EB(p) => format!("E::B({})", pat(p)),
        Pat::EC(x, y, swap) => {
            let f = |n: &str, p: &Pat| match p {
                Pat::Name(m) if m == n => n.to_string(),
                p => format!("{n}: {}", pat(p)),
            };
            match swap {
                false => format!("E::C {{ {}, {} }}", f("x", x), f("y", y)),
                true => format!("E::C with {{ {}, {} }}", f("y", y), f("x", x)),
            }
        }
        Pat::P(n, s) => {
            let f = |k: &str, p: &Pat| match p {
                Pat::Name(m) if m == k => k.to_string(),
                p => format!("{k}: {}", pat(p)),
            };
            format!("P {{ {}, {} }}", f("n", n), f("s", s))
        }
        Pat::Or(ps) => ps.iter().map(pat).collect::<Vec<_>>().join(" or "),
    }
}

fn ctl(c: Wc) -> &'static str {
    match c {
        b'-' => "-",
        b'+' => "+",
        b'~' => "~",
        _ => "",
    }
}

impl Printer<'_> {
    /// Makes sure that the text before a delimiter does not complete another delimiter with it.
    fn close_text(&mut self, next: &str) {
        let Some((id, start)) = self.last_text.take() else { return };
        let starts = [self.d.0[0].as_str(), self.d.0[2].as_str(), self.d.0[4].as_str()];
        let clean = |t: &str| {
            let all = format!("{t}{next}");
            let first = starts.iter().filter_map(|s| all.find(s)).min();
            first.map_or(next.is_empty(), |p| p == t.len())
        };
        let t = self.texts[id].clone();
        if clean(&t) {
            return;
        }
        let bad: Vec<char> = starts.iter().flat_map(|s| s.chars()).collect();
        let mut fixed: String = t.chars().map(|c| if bad.contains(&c) { '.' } else { c }).collect();
        if !clean(&fixed) {
            fixed.push('.');
        }
        self.out.truncate(start);
        self.out.push_str(&fixed);
        self.texts[id] = fixed;
    }

    fn tag(&mut self, t: Tag, content: &str) {
        let (a, b) = (self.d.0[0].clone(), self.d.0[1].clone());
        self.delimited(t, &a, content, &b);
    }

    fn delimited(&mut self, t: Tag, a: &str, content: &str, b: &str) {
        self.close_text(a);
        // whitespace inside of tags has no meaning, but is needed next to operators and braces
        let word = |c: char| c.is_ascii_alphanumeric() || c == ')' || c == '"';
        let v = self.vary();
        let l = match v % 8 {
            0 if content.starts_with(word) => "",
            1 => "\n  ",
            2 => "\t",
            _ => " ",
        };
        let r = match v / 8 % 8 {
            0 if content.ends_with(word) => "",
            1 => "\r\n",
            2 => "  ",
            _ => " ",
        };
        self.out.push_str(&format!("{a}{}{l}{content}{r}{}{b}", ctl(t.l), ctl(t.r)));
        self.items.push(Item::Tag(t));
    }

    /// Decides between different ways to write the same thing.
    fn vary(&self) -> u64 {
        crate::source::mix(self.out.len() as u64) >> 20
    }

    fn text(&mut self, id: usize) {
        let t = self.texts[id].clone();
        self.last_text = Some((id, self.out.len()));
        self.out.push_str(&t);
        self.items.push(Item::Text(id));
    }

    fn nodes(&mut self, ns: &[Nd]) {
        for n in ns {
            self.node(n);
        }
    }

    fn node(&mut self, n: &Nd) {
        match n {
            Nd::Text(id) => self.text(*id),
            Nd::Expr(t, e) => {
                let (a, b) = (self.d.0[2].clone(), self.d.0[3].clone());
                self.delimited(*t, &a, &ex(e), &b);
            }
            Nd::Comment(t, c) => {
                let (a, b) = (self.d.0[4].clone(), self.d.0[5].clone());
                self.close_text(&a);
                // comments in comments
                let c = c.replace('\u{1}', &a).replace('\u{2}', &b);
                self.out.push_str(&format!("{a}{} {c} {}{b}", ctl(t.l), ctl(t.r)));
                self.items.push(Item::Tag(*t));
            }
            Nd::Raw(t, id, end) => {
                self.tag(*t, "raw");
                if let Some(id) = id {
                    let t = self.texts[*id].clone();
                    self.out.push_str(&t);
                    self.items.push(Item::Text(*id));
                }
                self.tag(*end, "endraw");
            }
            Nd::If(cs, end) => {
                for (i, c) in cs.iter().enumerate() {
                    let s = match &c.test {
                        None => "else".to_string(),
                        Some((p, e)) => format!(
                            "{}if {}{}",
                            match i {
                                0 => "",
                                _ if self.vary() % 3 == 0 => "el",
                                _ => "else ",
                            },
                            p.as_ref().map(|p| format!("let {} = ", pat(p))).unwrap_or_default(),
                            ex(e)
                        ),
                    };
                    self.tag(c.tag, &s);
                    self.nodes(&c.body);
                }
                self.tag(*end, "endif");
            }
            Nd::For { tag, pat: p, iter, cond, body, els, end } => {
                let c = cond.as_ref().map(|c| format!(" if {}", ex(c))).unwrap_or_default();
                self.tag(*tag, &format!("for {} in {}{c}", pat(p), ex(iter)));
                self.nodes(body);
                if let Some((t, ns)) = els {
                    self.tag(*t, "else");
                    self.nodes(ns);
                }
                self.tag(*end, "endfor");
            }
            Nd::Match { tag, ex: e, gap, arms, end } => {
                self.tag(*tag, &format!("match {}", ex(e)));
                // whitespace between `match` and the first arm is not rendered
                self.out.push_str(gap);
                for (t, p, body) in arms {
                    match p {
                        Some(p) => self.tag(*t, &format!("when {}", pat(p))),
                        None => self.tag(*t, "else"),
                    }
                    self.nodes(body);
                }
                self.tag(*end, "endmatch");
            }
            Nd::Let(t, p, e) => {
                let word = if self.vary() % 4 == 0 { "set" } else { "let" };
                let e = e.as_ref().map(|e| format!(" = {}", ex(e))).unwrap_or_default();
                self.tag(*t, &format!("{word} {}{e}", pat(p)));
            }
            Nd::Block { tag, name, body, end } => {
                self.tag(*tag, &format!("block {name}"));
                self.nodes(body);
                let again = if self.vary() % 3 == 0 { format!("endblock {name}") } else { "endblock".into() };
                self.tag(*end, &again);
            }
            Nd::Super(t) => self.tag(*t, "call super()"),
            Nd::Include(t, p, _) => self.tag(*t, &format!("include {p:?}")),
            Nd::Import(t, p, s, _) => self.tag(*t, &format!("import {p:?} as {s}")),
            Nd::Extends(p, _) => self.tag(Tag::default(), &format!("extends {p:?}")),
            Nd::Macro { tag, name, params, body, end } => {
                self.tag(*tag, &format!("macro {name}({})", params.join(", ")));
                self.nodes(body);
                let again = if self.vary() % 3 == 0 { format!("endmacro {name}") } else { "endmacro".into() };
                self.tag(*end, &again);
            }
            Nd::Call { tag, scope, name, args } => {
                let args: Vec<String> = args
                    .iter()
                    .map(|(n, e)| match n {
                        Some(n) => format!("{n} = {}", ex(e)),
                        None => ex(e),
                    })
                    .collect();
                let scope = scope.as_ref().map(|s| format!("{s}::")).unwrap_or_default();
                self.tag(*tag, &format!("call {scope}{name}({})", args.join(", ")));
            }
            Nd::Filter { tag, filters, body, end } => {
                let fs: Vec<String> = filters
                    .iter()
                    .map(|(f, args)| if args.is_empty() { f.clone() } else { format!("{f}({})", list(args)) })
                    .collect();
                self.tag(*tag, &format!("filter {}", fs.join("|")));
                self.nodes(body);
                self.tag(*end, "endfilter");
            }
            Nd::Src(src) => {
                if !src.is_empty() {
                    self.close_text(src);
                    self.out.push_str(src);
                    self.items.push(Item::Tag(Tag::default()));
                }
            }
            Nd::Break(t) => self.tag(*t, "break"),
            Nd::Continue(t) => self.tag(*t, "continue"),
        }
    }
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

fn apply(ws: &str, mode: Wc) -> &str {
    match mode {
        _ if ws.is_empty() => "",
        b'-' => "",
        b'~' => match ws.contains('\n') {
            true => "\n",
            false => " ",
        },
        _ => ws,
    }
}

/// The source of a file. Also sets what is left of its texts.
pub fn file(p: &mut Project, idx: usize, d: &Delims, default: Wc) -> String {
    let nodes = std::mem::take(&mut p.files[idx].nodes);
    let inline = p.files[idx].path.is_empty();
    let mut pr = Printer { d, texts: &mut p.texts, out: String::new(), items: vec![], last_text: None };
    pr.nodes(&nodes);
    pr.close_text("");
    let (out, items) = (pr.out, pr.items);
    p.files[idx].nodes = nodes;
    p.trimmed.resize(p.texts.len(), String::new());
    let eff = |c: Wc| if c == 0 { default } else { c };
    for (k, it) in items.iter().enumerate() {
        let Item::Text(id) = it else { continue };
        let left = match k.checked_sub(1).map(|k| &items[k]) {
            Some(Item::Tag(t)) => eff(t.r),
            _ => b'+',
        };
        let right = match items.get(k + 1) {
            Some(Item::Tag(t)) => eff(t.l),
            _ => b'+',
        };
        let mut t = p.texts[*id].as_str();
        if k + 1 == items.len() && !inline {
            t = t.strip_suffix('\n').unwrap_or(t);
        }
        let body = t.trim_matches(is_ws);
        p.trimmed[*id] = if body.is_empty() {
            let mode = if left == b'-' || right == b'-' {
                b'-'
            } else if left == b'~' || right == b'~' {
                b'~'
            } else {
                b'+'
            };
            apply(t, mode).to_string()
        } else {
            let start = t.find(body).unwrap();
            format!("{}{body}{}", apply(&t[..start], left), apply(&t[start + body.len()..], right))
        };
    }
    out
}
