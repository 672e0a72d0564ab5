//! C15: built-in filters in templates, on values of many types, against the same thing in Rust.
use crate::e2e::{E2e, Expect, Mode, Prog};
use crate::source::Src;
use crate::strings::rust_str;

const KINDS: &[(&str, char)] = &[
    // i: integer, f: float, s: text, d: only Debug, v: displayed by a type of its own
    ("a", 'i'), ("u", 'i'), ("by", 'i'), ("nz", 'i'), ("f", 'f'), ("g", 'f'), ("b", 's'), ("c", 's'), ("s", 's'), ("t", 's'), ("bx", 's'), ("cow", 's'),
    ("rc", 's'), ("o", 'd'), ("v", 'd'), ("tp", 'd'), ("d", 'v'), ("q.n", 'i'), ("q.w.0", 's'), ("r", 's'), ("rr", 'i'),
];

const FIELDS: &str = "a: i64, u: usize, by: u8, nz: std::num::NonZeroU16, f: f64, g: f32, b: bool, c: char, s: &'static str, t: String, bx: Box<str>, \
     cow: std::borrow::Cow<'static, str>, rc: std::rc::Rc<str>, o: Option<i64>, v: Vec<&'static str>, ns: Vec<i64>, ar: [u8; 3], tp: (i64, &'static str), d: D, q: Q, \
     r: &'static &'static str, rr: &'static i64, set: std::collections::BTreeSet<i64>, ts: Vec<String>, sl: &'static [char], dq: std::collections::VecDeque<f32>";

const CODE: &str = r#"
#[derive(Clone, Copy)]
pub struct D(i64);
impl std::fmt::Display for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // reads all flags
        write!(f, "<{}{}{}>", self.0, f.alternate(), f.sign_plus())?;
        match (f.width(), f.precision()) {
            (Some(w), Some(p)) => write!(f, "{w}.{p}"),
            (Some(w), None) => write!(f, "{w}"),
            (None, Some(p)) => write!(f, ".{p}"),
            (None, None) => f.pad("-"),
        }
    }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("D").field("x", &self.0).finish()
    }
}
#[derive(Debug)]
pub struct Q {
    n: u32,
    w: (&'static str, i8),
}
/// Reference implementations.
mod r {
    pub fn esc(html: bool, s: impl ToString) -> String {
        let s = s.to_string();
        match html {
            true => askama_escape::escape(&s, askama_escape::Html).to_string(),
            false => s,
        }
    }
    pub fn join(it: impl IntoIterator<Item = impl ToString>, sep: &str) -> String {
        it.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep)
    }
    pub fn capitalize(s: impl ToString) -> String {
        let s = s.to_string();
        let mut c = s.chars();
        match c.next() {
            Some(f) => f.to_uppercase().chain(c.flat_map(|x| x.to_lowercase())).collect(),
            None => s,
        }
    }
    pub fn truncate(s: impl ToString, n: usize) -> String {
        let s = s.to_string();
        match s.len() <= n {
            true => s,
            false => {
                // a character is not cut
                let end = (n..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
                match end == s.len() {
                    true => s,
                    false => format!("{}...", &s[..end]),
                }
            }
        }
    }
    pub fn center(s: impl ToString, n: usize) -> String {
        let s = s.to_string();
        let k = s.chars().count();
        match k >= n {
            true => s,
            false => format!("{}{s}{}", " ".repeat((n - k) / 2), " ".repeat(n - k - (n - k) / 2)),
        }
    }
    pub fn breaks(s: impl ToString) -> String {
        s.to_string().replace('\n', "<br/>")
    }
}
"#;

/// A format specification for a value of this kind.
fn spec(s: &mut Src, kind: char) -> String {
    let mut o = String::new();
    if s.chance(60) {
        if s.chance(60) {
            if s.chance(50) {
                o.push(s.of(&['*', '0', ' ', '<', '"', '\\', '\'', 'é', '\u{1d11e}', '%', '#', '-']));
            }
            o.push(s.of(&['<', '^', '>']));
        }
        if s.chance(25) {
            o.push('+');
        }
        if s.chance(25) {
            o.push('#');
        }
        if s.chance(20) && kind != 's' {
            o.push('0');
        }
        if s.chance(60) {
            o.push_str(&(1 + s.below(14)).to_string());
        }
        if s.chance(35) {
            o.push_str(&format!(".{}", s.below(6)));
        }
    }
    let ty = match kind {
        'i' => s.of(&["", "", "", "?", "x", "X", "b", "o", "e", "x?"]),
        'f' => s.of(&["", "", "?", "e", "E"]),
        'd' => s.of(&["?", "?", "x?", "X?"]),
        'v' | 's' => s.of(&["", "", "", "?"]),
        _ => "",
    };
    o.push_str(ty);
    match o.is_empty() {
        true => String::new(),
        false => format!(":{o}"),
    }
}

fn literal_text(s: &mut Src) -> String {
    let n = s.below(3);
    (0..n).map(|_| s.of(&["a", " ", "{{", "}}", "<", "&", "\"", "\\", "\n", "é", "%}}", "|", "'", "#", "{{}}"])).collect()
}

fn operand(s: &mut Src) -> (&'static str, char) {
    s.of(KINDS)
}

/// How a template spells the field and how Rust does.
fn field(s: &mut Src, f: &str) -> (String, String) {
    let t = if s.chance(50) { format!("self.{f}") } else { f.to_string() };
    (t, format!("t.{f}"))
}

/// A template, the Rust code for its output, and what it uses.
fn piece(s: &mut Src, html: bool) -> (String, String, &'static str) {
    let e = |x: String| format!("out.push_str(&r::esc({html}, {x}));");
    match s.below(12) {
        0..=2 => {
            let (f, k) = operand(s);
            let (t, r) = field(s, f);
            let n = 1 + s.below(3);
            // without numbers there must be as many as arguments
            let numbered = n > 1;
            let mut fm = literal_text(s);
            for _ in 0..n {
                fm.push_str(&format!("{{{}{}}}{}", if numbered || s.chance(20) { "0" } else { "" }, spec(s, k), literal_text(s)));
            }
            let fm = rust_str(&fm);
            (format!("{{{{ {t}|fmt({fm}) }}}}"), e(format!("format!({fm}, {r})")), "fmt")
        }
        3..=5 => {
            // without arguments, braces are still written twice
            let n = s.below(5);
            let ops: Vec<(String, String, char)> = (0..n)
                .map(|_| {
                    if s.chance(25) {
                        let (l, k) = s.of(&[("1", 'i'), ("-3", 'i'), ("2.5", 'f'), ("\"x<\"", 's'), ("'c'", 's'), ("true", 's'), ("1 + 2", 'i')]);
                        return (l.to_string(), l.to_string(), k);
                    }
                    let (f, k) = operand(s);
                    let (t, r) = field(s, f);
                    (t, r, k)
                })
                .collect();
            let mut fm = literal_text(s);
            // all arguments have to be used
            let mut order: Vec<usize> = (0..n).collect();
            let numbered = s.chance(40);
            if numbered {
                for k in 1..n {
                    let j = s.below(k + 1);
                    order.swap(k, j);
                }
                for _ in 0..if n == 0 { 0 } else { s.below(3) } {
                    order.push(s.below(n));
                }
            }
            for k in order {
                let no = if numbered { k.to_string() } else { String::new() };
                fm.push_str(&format!("{{{no}{}}}{}", spec(s, ops[k].2), literal_text(s)));
            }
            let fm = rust_str(&fm);
            let t: Vec<&str> = ops.iter().map(|x| x.0.as_str()).collect();
            let r: Vec<&str> = ops.iter().map(|x| x.1.as_str()).collect();
            let args = match n {
                0 => s.of(&["", "()"]).to_string(),
                _ => format!("({})", t.join(", ")),
            };
            (format!("{{{{ {fm}|format{args} }}}}"), e(format!("format!({fm}, {})", r.join(", "))), "format")
        }
        6 | 7 => {
            let c = s.of(&["v", "ns", "ar", "set", "ts", "sl", "dq"]);
            let (t, r) = field(s, c);
            let (sept, sepr) = match s.below(3) {
                0 => field(s, "s"),
                _ => {
                    let x = rust_str(s.of(&["", ", ", "<", "é", "\n", "|", "\"", "%}"]));
                    (x.clone(), x)
                }
            };
            let it = match c {
                "v" if s.chance(30) => "[\"<\", \"b\"]",
                "ns" if s.chance(30) => "[1, 2 + 3]",
                _ => "",
            };
            match it {
                "" => (format!("{{{{ {t}|join({sept}) }}}}"), e(format!("r::join({r}.iter(), &{sepr})")), "join"),
                x => (format!("{{{{ {x}|join({sept}) }}}}"), e(format!("r::join({x}.iter(), &{sepr})")), "join"),
            }
        }
        8 => {
            // numbers
            let (f, r) = s.of(&[
                ("a.clone()|into_f64", "t.a as f64"), ("by.clone()|into_f64", "t.by as f64"), ("self.g.clone()|into_f64", "t.g as f64"), ("by.clone()|into_isize", "t.by as isize"),
                ("q.n.clone()|into_f64", "t.q.n as f64"), ("7|into_f64", "7.0"), ("-2.75|into_isize", "-2"), ("a.clone()|abs", "t.a.abs()"), ("-5|abs", "5"),
                ("-2.5|abs", "2.5"), ("g.clone()|abs", "t.g.abs()"),
            ]);
            (format!("{{{{ {f} }}}}"), e(r.to_string()), "number")
        }
        _ => {
            let (f, k) = operand(s);
            if k == 'd' {
                return piece(s, html);
            }
            let (t, r) = field(s, f);
            let n = s.below(12);
            let (tf, rf) = match s.below(11) {
                0 => ("upper".into(), format!("{r}.to_string().to_uppercase()")),
                1 => ("lower".into(), format!("{r}.to_string().to_lowercase()")),
                2 => ("uppercase".into(), format!("{r}.to_string().to_uppercase()")),
                3 => ("lowercase".into(), format!("{r}.to_string().to_lowercase()")),
                4 => ("trim".into(), format!("{r}.to_string().trim()")),
                5 => ("capitalize".into(), format!("r::capitalize(&{r})")),
                6 => ("wordcount".into(), format!("{r}.to_string().split_whitespace().count()")),
                7 => (format!("truncate({n})"), format!("r::truncate(&{r}, {n})")),
                8 => (format!("center({n})"), format!("r::center(&{r}, {n})")),
                9 => ("linebreaksbr".into(), format!("r::breaks(&{r})")),
                _ => ("safe".into(), format!("{r}.to_string()")),
            };
            if tf == "safe" {
                return (format!("{{{{ {t}|safe }}}}"), format!("out.push_str(&{rf});"), "safe");
            }
            // a second filter
            match s.below(4) {
                0 => (format!("{{{{ {t}|{tf}|e }}}}"), e(rf), "chain"),
                1 => (format!("{{{{ {t}|{tf}|fmt(\"[{{}}]\") }}}}"), e(format!("format!(\"[{{}}]\", ({rf}).to_string())")), "chain"),
                2 => (format!("{{{{ {t}|{tf}|upper }}}}"), e(format!("({rf}).to_string().to_uppercase()")), "chain"),
                _ => (format!("{{{{ {t}|{tf} }}}}"), e(rf), "filter"),
            }
        }
    }
}

fn gen(s: &mut Src) -> Option<Prog> {
    let mut code = format!("use askama::Template;\nuse crate::p;\n{CODE}");
    let mut run = String::new();
    let mut tags = vec![];
    let mut n = 0;
    for k in 0..3 {
        let html = s.chance(50);
        let (mut t, mut r) = (String::new(), String::new());
        for _ in 0..1 + s.below(4) {
            let (a, b, tag) = piece(s, html);
            t.push_str(&a);
            t.push('|');
            r.push_str(&format!("            {b}\n            out.push('|');\n"));
            tags.push(tag);
            n += 1;
        }
        let mut text = || {
            let n = s.below(4);
            rust_str(&(0..n).map(|_| s.of(&["a", "B", "ß", " ", "\n", "<", "&", "\"", "dž", "ab cd", "é", "\u{1d11e}", "'", "\t"])).collect::<String>())
        };
        let x: Vec<String> = (0..13).map(|_| text()).collect();
        let ints = ["0", "1", "-1", "255", "1000000", "-42", "i64::MAX", "i64::MIN / 4"];
        let floats = ["0.0", "1.0", "-2.5", "1e20", "0.1", "123456.789", "f64::INFINITY", "f64::NAN"];
        let a = s.of(&ints);
        code.push_str(&format!(
            "#[derive(Template)]\n#[template(source = {}, ext = {:?})]\nstruct T{k} {{ {FIELDS} }}\n",
            rust_str(&t),
            if html { "html" } else { "txt" }
        ));
        run.push_str(&format!(
            "    let t = T{k} {{ a: ({a}) / 2, u: {}, by: {}, nz: std::num::NonZeroU16::new({}).unwrap(), f: {}, g: {}, b: {}, c: {:?}, s: {}, t: {}.to_string(), bx: {}.into(), \
             cow: {}({}.into()), rc: {}.into(), o: {}, v: vec![{}, {}], ns: vec![{}], ar: [1, {}, 3], tp: ({}, {}), d: D({}), q: Q {{ n: {}, w: ({}, 3) }}, r: &{}, rr: &{}, \
             set: [3, 1, {}].into(), ts: vec![{}.to_string(), {}.to_string()], sl: &['x', '<', {:?}], dq: [1.5, {}].into() }};\n",
            s.below(300),
            s.below(256),
            1 + s.below(999),
            s.of(&floats),
            s.of(&["0.0", "1.5", "-0.1", "3e9"]),
            s.chance(50),
            s.of(&['a', '<', 'é', '\n', '"']),
            x[0],
            x[1],
            x[2],
            s.of(&["std::borrow::Cow::Borrowed", "std::borrow::Cow::Owned"]),
            x[3],
            x[4],
            s.of(&["None", "Some(-3)"]),
            x[5],
            x[6],
            s.of(&["", "1", "1, -2, 3"]),
            s.below(256),
            s.of(&ints),
            x[7],
            s.of(&ints),
            s.below(1000),
            x[8],
            x[9],
            s.below(99),
            s.below(9),
            x[10],
            x[11],
            s.of(&['y', 'é', '"']),
            s.of(&["0.5", "-1.0"]),
        ));
        run.push_str(&format!(
            "    o.push(p::render(&t));\n    o.push({{\n            let mut out = String::new();\n{r}            out\n    }});\n"
        ));
    }
    code.push_str(&format!("pub fn run(o: &mut Vec<String>) {{\n{run}}}\n"));
    tags.sort();
    tags.dedup();
    Some(Prog { files: vec![], code, expect: Expect::Pairs, nontrivial: n > 3, tags, deps: vec![] })
}

pub fn e2e() -> Vec<E2e> {
    vec![E2e { name: "in_templates", quick: 1600, batch: 40, gen, mode: Mode::Plain, web: None }]
}
