//! C15, C16, C17: the built-in filters against their documentation.
use crate::runner::{ok, Check, Sub, SubDyn};
use crate::source::Src;
use crate::strings::*;
use askama::filters as f;
use serde_json::{json, Map, Value};

/// A string together with a way to write it in chunks: filters take any `Display`.
#[derive(Debug)]
pub struct Txt {
    s: String,
    chunks: Vec<(u8, String)>,
    n: usize,
}

impl Txt {
    fn d(&self) -> Chunked {
        Chunked { chunks: self.chunks.clone() }
    }
}

fn text(s: &mut Src) -> String {
    const P: &[&str] = &[
        "a", "B", "foo", "Bar ", " ", "\n", "\n\n", "\n\n\n", "\r\n", "\t", "é", "É", "ß", "Σ", "σ", "ς", "中", "🦀", "ﬁ", "İ",
        "ǆ", "ǅ", "-", "_", "<p>", "</p>", "1", "\u{a0}", "\u{3000}", "\u{301}", "o'n", "AΣ", "ΑΣ ", "x\ny", "ŉ",
    ];
    match s.below(4) {
        0 => any_string(s, 30),
        1 => {
            // newline structure
            let n = s.len(12);
            (0..n).map(|_| s.pick(&["\n", "a", "\n", "b c", "é", "\r"])).collect()
        }
        _ => {
            let n = s.len(14);
            (0..n).map(|_| s.pick(P)).collect()
        }
    }
}

fn gen_txt(s: &mut Src) -> Txt {
    let t = if s.chance(2) {
        let n = 9_900 + s.below(200);
        let mut t: String = "abc d\n".chars().cycle().take(n).collect();
        t.push_str(s.pick(&["", "é", "\n"]));
        t
    } else {
        text(s)
    };
    let chunks = Chunked::split(s, &t).chunks;
    let n = match s.below(10) {
        0 => 0,
        1 => t.len(),
        2 => t.len().saturating_sub(1),
        3 => t.chars().count(),
        4 if s.chance(20) => s.of(&[9_999, 10_000, 10_001, 20_000]),
        _ => s.below(t.len().min(60) + 4),
    };
    Txt { s: t, chunks, n }
}

fn same(what: &str, got: &str, want: &str) -> Result<(), String> {
    match got == want {
        true => Ok(()),
        false => Err(format!("{what}: got {got:?}, expected {want:?}")),
    }
}

macro_rules! out {
    ($e:expr) => {
        $e.map_err(|e| format!("{}: {e}", stringify!($e)))?.to_string()
    };
}

fn up(c: char) -> String {
    c.to_uppercase().collect()
}
fn lo(c: char) -> String {
    c.to_lowercase().collect()
}
/// The lower case of sigma depends on its position; both forms are lower case.
fn sigma(s: &str) -> String {
    s.replace('ς', "σ")
}

fn check_case(t: &Txt) -> Check {
    let x = &t.s;
    let lower: String = x.chars().map(lo).collect();
    let upper: String = x.chars().map(up).collect();
    for (n, got) in [("lower", out!(f::lower(t.d()))), ("lowercase", out!(f::lowercase(t.d())))] {
        same(n, &sigma(&got), &sigma(&lower))?;
    }
    for (n, got) in [("upper", out!(f::upper(t.d()))), ("uppercase", out!(f::uppercase(t.d())))] {
        same(n, &got, &upper)?;
    }
    let mut cap = String::new();
    for (i, c) in x.chars().enumerate() {
        cap.push_str(&if i == 0 { up(c) } else { lo(c) });
    }
    same("capitalize", &sigma(&out!(f::capitalize(t.d()))), &sigma(&cap))?;
    // words start with an uppercase letter, all remaining characters are lowercase
    let mut title = String::new();
    let mut start = true;
    for c in x.chars() {
        if c.is_whitespace() {
            title.push(c);
            start = true;
        } else {
            title.push_str(&match start {
                true if c.is_uppercase() => c.to_string(),
                true => up(c),
                false if c.is_lowercase() => c.to_string(),
                false => lo(c),
            });
            start = false;
        }
    }
    same("title", &sigma(&out!(f::title(t.d()))), &sigma(&title))?;
    let cased = x.chars().any(|c| c.is_uppercase()) && x.chars().any(|c| c.is_lowercase());
    ok(cased, vec![if x.is_ascii() { "ascii" } else { "non_ascii" }])
}

fn check_space(t: &Txt) -> Check {
    let x = &t.s;
    let trimmed = out!(f::trim(t.d()));
    same("trim", &trimmed, x.trim())?;
    let words = f::wordcount(t.d()).unwrap();
    let mut n = 0;
    let mut inw = false;
    for c in x.chars() {
        if !c.is_whitespace() && !inw {
            n += 1;
        }
        inw = !c.is_whitespace();
    }
    if words != n {
        return Err(format!("wordcount: got {words}, expected {n}"));
    }
    // center: the text with spaces around it, `width` characters, the sides differ by at most one
    let got = out!(f::center(t.d(), t.n));
    let len = x.chars().count();
    if t.n < 10_000 && t.n > len {
        let pad = t.n - len;
        let left = got.chars().take_while(|&c| c == ' ').count();
        let want1 = format!("{}{}{}", " ".repeat(pad / 2), x, " ".repeat(pad - pad / 2));
        let _ = left;
        same("center", &got, &want1)?;
    } else if t.n < 10_000 {
        same("center", &got, x)?;
    } else if !got.contains(x.as_str()) {
        return Err(format!("center: {x:?} is not part of {got:?}"));
    }
    // indent: `width` spaces after each newline that is followed by something
    let got = out!(f::indent(t.d(), t.n));
    if t.n < 10_000 && x.len() < 10_000 {
        let mut want = String::new();
        let mut it = x.chars().peekable();
        while let Some(c) = it.next() {
            want.push(c);
            if c == '\n' && it.peek().is_some() {
                want.push_str(&" ".repeat(t.n));
            }
        }
        same("indent", &got, &want)?;
    } else {
        same("indent (limit)", &got, x)?;
    }
    ok(x.contains(char::is_whitespace) && x.trim() != "", vec![
        if t.n > len { "padding" } else { "no_padding" },
        if x.contains('\n') { "newlines" } else { "one_line" },
    ])
}

fn check_truncate(t: &Txt) -> Check {
    let x = &t.s;
    let got = out!(f::truncate(t.d(), t.n));
    let whole = out!(f::truncate(x.as_str(), t.n));
    same("truncate written in chunks", &got, &whole)?;
    if t.n >= x.len() {
        same("truncate (fits)", &got, x)?;
        return ok(false, vec!["fits"]);
    }
    // the first n bytes, extended to the end of the character
    let mut end = t.n;
    while !x.is_char_boundary(end) {
        end += 1;
    }
    let want = match end == x.len() {
        true => x.clone(),
        false => format!("{}...", &x[..end]),
    };
    same("truncate", &got, &want)?;
    ok(true, vec![if end != t.n { "inside_char" } else { "at_boundary" }])
}

fn check_breaks(t: &Txt) -> Check {
    let x = &t.s;
    same("linebreaksbr", &out!(f::linebreaksbr(t.d())), &x.split('\n').collect::<Vec<_>>().join("<br/>"))?;
    // pairs of newlines from the left separate paragraphs, single ones lines
    let mut want = String::from("<p>");
    let mut rest = x.as_str();
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("\n\n") {
            want.push_str("</p><p>");
            rest = r;
        } else if let Some(r) = rest.strip_prefix('\n') {
            want.push_str("<br/>");
            rest = r;
        } else {
            let c = rest.chars().next().unwrap();
            want.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    want.push_str("</p>");
    same("linebreaks", &out!(f::linebreaks(t.d())), &want)?;
    // paragraphbreaks: every non-empty paragraph in order, nothing else
    let mut want = String::new();
    let mut par = String::new();
    let mut rest = x.as_str();
    loop {
        if rest.is_empty() || rest.starts_with("\n\n") {
            if !par.is_empty() {
                want.push_str(&format!("<p>{par}</p>"));
                par.clear();
            }
            if rest.is_empty() {
                break;
            }
            rest = &rest[2..];
        } else {
            let c = rest.chars().next().unwrap();
            par.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    same("paragraphbreaks", &out!(f::paragraphbreaks(t.d())), &want)?;
    ok(x.contains("\n\n"), vec![if x.contains("\n\n\n") { "triple" } else { "other" }])
}

fn check_join(c: &(Vec<String>, String)) -> Check {
    let (xs, sep) = c;
    let want = xs.join(sep);
    same("join of strings", &out!(f::join(xs.iter(), sep)), &want)?;
    same("join of owned", &out!(f::join(xs.clone(), sep.as_str())), &want)?;
    let refs: Vec<&str> = xs.iter().map(|x| x.as_str()).collect();
    same("join of slice", &out!(f::join(&refs[..], sep)), &want)?;
    let lens: Vec<usize> = xs.iter().map(|x| x.len()).collect();
    let want = lens.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep);
    same("join of numbers", &out!(f::join(lens.iter(), sep)), &want)?;
    same("join of iterator", &out!(f::join(lens.iter().map(|x| x + 0), sep)), &want)?;
    ok(xs.len() > 1, vec![if xs.is_empty() { "empty" } else { "nonempty" }])
}

#[derive(Debug)]
struct Num {
    i: i64,
    fl: f64,
}

fn gen_num(s: &mut Src) -> Num {
    let i = match s.below(6) {
        0 => s.range(-20, 20),
        1 => s.range(-2000, 2000),
        2 => {
            let p = s.of(&[10i64, 1_000, 1_000_000, 1_000_000_000, 1_000_000_000_000]);
            p * s.range(-9, 9) + s.range(-2, 2)
        }
        3 => s.of(&[i64::MAX, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i16::MIN as i64]),
        _ => {
            let a = s.below(1 << 30) as i64;
            let b = s.below(1 << 30) as i64;
            (a << 30 | b) >> s.below(60)
        }
    };
    let fl = match s.below(4) {
        0 => s.range(-100, 100) as f64 / 8.0,
        1 => i as f64 * 1.5,
        2 => s.of(&[0.0, -0.0, f64::MAX, f64::MIN, 1e300, -1e-300]),
        _ => i as f64 / 1000.0,
    };
    Num { i, fl }
}

fn check_num(c: &Num) -> Check {
    let e = |m: String| Err::<(), String>(m);
    let abs = f::abs(c.i).map_err(|e| e.to_string())?;
    if abs as i128 != (c.i as i128).abs() {
        e(format!("abs({}) = {abs}", c.i))?;
    }
    let abs = f::abs(c.fl).map_err(|e| e.to_string())?;
    if abs.to_bits() != c.fl.to_bits() & !(1 << 63) {
        e(format!("abs({:?}) = {abs:?}", c.fl))?;
    }
    let small = c.i as i32;
    if small != i32::MIN && f::abs(small).unwrap() as i64 != (small as i64).abs() {
        e(format!("abs({small})"))?;
    }
    let x = f::into_f64(c.i).map_err(|e| e.to_string())?;
    if x != c.i as f64 {
        e(format!("into_f64({}) = {x}", c.i))?;
    }
    if f::into_f64(c.fl).map_err(|e| e.to_string())? != c.fl {
        e(format!("into_f64({})", c.fl))?;
    }
    if f::into_isize(c.i).map_err(|e| e.to_string())? as i64 != c.i {
        e(format!("into_isize({})", c.i))?;
    }
    // truncation towards zero; out of range is an error
    match f::into_isize(c.fl) {
        Ok(v) if c.fl.abs() < 9.2e18 && v == c.fl.trunc() as isize => {}
        Err(_) if c.fl.abs() > 9.2e18 => {}
        r => e(format!("into_isize({:?}) = {r:?}", c.fl))?,
    }
    let u = (c.i as u64) | (1 << 63);
    if f::into_isize(u).is_ok() {
        e(format!("into_isize({u}) is not an error"))?;
    }
    ok(c.i != 0, vec![])
}

fn check_size(c: &Num) -> Check {
    // the number with at most two decimals and the largest unit that does not exceed it
    const UNITS: &[&str] = &["B", "kB", "MB", "GB", "TB", "PB", "EB", "ZB", "YB"];
    for (got, v) in [
        (out!(f::filesizeformat(&c.i)), c.i as f64),
        (out!(f::filesizeformat(&(c.i as i32))), c.i as i32 as f64),
        (out!(f::filesizeformat(&(c.i as u64))), c.i as u64 as f64),
        (out!(f::filesizeformat(&(c.i as u16))), c.i as u16 as f64),
    ] {
        let bad = |m: &str| Err::<(), String>(format!("filesizeformat({v}) = {got:?}: {m}"));
        let Some((num, unit)) = got.split_once(' ') else {
            bad("format")?;
            unreachable!()
        };
        let Some(k) = UNITS.iter().position(|u| *u == unit) else {
            bad("unit")?;
            unreachable!()
        };
        let Ok(n) = num.parse::<f64>() else {
            bad("number")?;
            unreachable!()
        };
        let scale = 1000f64.powi(k as i32);
        if (n * scale - v).abs() > 0.00501 * scale + v.abs() * 1e-12 {
            bad("wrong value")?;
        }
        if num.split_once('.').map_or(0, |(_, d)| d.len()) > 2 {
            bad("too many decimals")?;
        }
        if k > 0 && v.abs() < scale * 0.999_999 {
            bad("unit too large")?;
        }
        if v.abs() >= scale * 1000.0 * 1.000_001 {
            bad("unit too small")?;
        }
    }
    ok(c.i.abs() >= 1000, vec![])
}

pub fn c15() -> Vec<Box<dyn SubDyn>> {
    vec![
        Box::new(Sub { name: "case", quick: 150_000, gen: gen_txt, check: check_case }),
        Box::new(Sub { name: "space", quick: 150_000, gen: gen_txt, check: check_space }),
        Box::new(Sub { name: "truncate", quick: 200_000, gen: gen_txt, check: check_truncate }),
        Box::new(Sub { name: "breaks", quick: 150_000, gen: gen_txt, check: check_breaks }),
        Box::new(Sub {
            name: "join",
            quick: 60_000,
            gen: |s| {
                let n = s.len(8);
                ((0..n).map(|_| any_string(s, 6)).collect(), any_string(s, 4))
            },
            check: check_join,
        }),
        Box::new(Sub { name: "numbers", quick: 100_000, gen: gen_num, check: check_num }),
        Box::new(Sub { name: "filesizeformat", quick: 100_000, gen: gen_num, check: check_size }),
    ]
}

fn check_url(t: &Txt) -> Check {
    let x = &t.s;
    for (name, got, slash) in [
        ("urlencode", out!(f::urlencode(t.d())), true),
        ("urlencode_strict", out!(f::urlencode_strict(t.d())), false),
        ("urlencode of str", out!(f::urlencode(x.as_str())), true),
        ("urlencode_strict of str", out!(f::urlencode_strict(x.as_str())), false),
    ] {
        let plain = |b: u8| b.is_ascii_alphanumeric() || matches!(b, b'-' | b'.' | b'_' | b'~') || (slash && b == b'/');
        let mut dec = vec![];
        let b = got.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' {
                let h = got.get(i + 1..i + 3).ok_or_else(|| format!("{name}: truncated escape in {got:?}"))?;
                let v = u8::from_str_radix(h, 16).map_err(|_| format!("{name}: bad escape in {got:?}"))?;
                if plain(v) {
                    return Err(format!("{name}: {:?} is escaped in {got:?}", v as char));
                }
                dec.push(v);
                i += 3;
            } else if plain(b[i]) {
                dec.push(b[i]);
                i += 1;
            } else {
                return Err(format!("{name}: {:?} is not escaped in {got:?}", b[i] as char));
            }
        }
        if dec != x.as_bytes() {
            return Err(format!("{name}: {got:?} does not decode to {x:?}"));
        }
    }
    ok(x.bytes().any(|b| !b.is_ascii_alphanumeric()), vec![if x.is_ascii() { "ascii" } else { "non_ascii" }])
}

pub fn c16() -> Vec<Box<dyn SubDyn>> {
    fn gen(s: &mut Src) -> Txt {
        let t = match s.below(3) {
            0 => {
                let n = s.len(20);
                (0..n).map(|_| s.below(128) as u8 as char).collect()
            }
            1 => {
                let n = s.len(12);
                (0..n).map(|_| s.pick(&["/", "%", "%2F", "+", " ", "-", ".", "_", "~", "a", "é", "&", "=", "?", "🦀", "\0"])).collect()
            }
            _ => any_string(s, 30),
        };
        let chunks = Chunked::split(s, &t).chunks;
        Txt { s: t, chunks, n: 0 }
    }
    vec![Box::new(Sub { name: "urlencode", quick: 400_000, gen, check: check_url })]
}

fn gen_json(s: &mut Src, depth: usize) -> Value {
    match s.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => json!(s.chance(50)),
        2 => json!(s.range(-1000, 1000)),
        3 => json!(s.of(&[0.5, -1.25e10, 1e-7, f64::MAX, 3.0])),
        4 | 5 => json!(any_string(s, 16)),
        6 | 7 => {
            let n = s.below(5);
            Value::Array((0..n).map(|_| gen_json(s, depth - 1)).collect())
        }
        _ => {
            let n = s.below(5);
            let mut m = Map::new();
            for _ in 0..n {
                let k = any_string(s, 8);
                m.insert(k, gen_json(s, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn check_json(v: &Value) -> Check {
    let got = out!(f::json(v));
    if let Some(c) = got.chars().find(|c| ['<', '>', '&', '\''].contains(c)) {
        return Err(format!("json: {got:?} contains {c:?}"));
    }
    let dec: Value = serde_json::from_str(&got).map_err(|e| format!("json: {got:?} is not valid: {e}"))?;
    if &dec != v {
        return Err(format!("json: {got:?} does not decode to {v}"));
    }
    // formatted like serde_json's pretty printer, only the four characters are escaped
    let plain = serde_json::to_string_pretty(v).unwrap();
    let want: String = plain
        .chars()
        .map(|c| match c {
            '<' | '>' | '&' | '\'' => format!("\\u{:04x}", c as u32),
            c => c.to_string(),
        })
        .collect();
    if !got.eq_ignore_ascii_case(&want) {
        return Err(format!("json: got {got:?}, expected {want:?}"));
    }
    // std types
    if let Value::String(x) = v {
        for got in [out!(f::json(x)), out!(f::json(x.as_str())), out!(f::json(&Some(x)))] {
            if serde_json::from_str::<String>(&got).ok().as_ref() != Some(x) {
                return Err(format!("json: {got:?} does not decode to {x:?}"));
            }
        }
        let pair = (x.clone(), vec![Some(1u8), None]);
        let got = out!(f::json(&pair));
        if serde_json::from_str::<(String, Vec<Option<u8>>)>(&got).ok() != Some(pair) {
            return Err(format!("json: {got:?} for a tuple"));
        }
    }
    ok(plain != want, vec![match v {
        Value::Array(_) | Value::Object(_) => "container",
        Value::String(_) => "string",
        _ => "scalar",
    }])
}

pub fn c17() -> Vec<Box<dyn SubDyn>> {
    vec![Box::new(Sub {
        name: "json",
        quick: 250_000,
        gen: |s| match s.below(3) {
            0 => json!(any_string(s, 40)),
            _ => gen_json(s, 3),
        },
        check: check_json,
    })]
}
