//! C01: the escapers.
use crate::runner::{ok, Check, Sub, SubDyn};
use crate::source::Src;
use crate::strings::*;
use askama_escape::{escape, Escaper, Html, MarkupDisplay, Text};
use std::fmt::{Display, Write};

pub fn ref_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#x27;"),
            c => o.push(c),
        }
    }
    o
}

/// Decodes the references an HTML parser would decode here, independent of how they are spelled.
fn decode(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(['&', '<', '>', '"', '\'']) {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        if !rest.starts_with('&') {
            return Err(format!("bare special character in {s:?}"));
        }
        let end = rest.find(';').ok_or_else(|| format!("bare ampersand in {s:?}"))?;
        let name = &rest[1..end];
        let c = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            n => {
                let code = match n.strip_prefix("#x").or(n.strip_prefix("#X")) {
                    Some(h) => u32::from_str_radix(h, 16).ok(),
                    None => n.strip_prefix('#').and_then(|d| d.parse().ok()),
                };
                code.and_then(char::from_u32).ok_or_else(|| format!("unknown reference {n:?} in {s:?}"))?
            }
        };
        o.push(c);
        rest = &rest[end + 1..];
    }
    o.push_str(rest);
    Ok(o)
}

fn eq(what: &str, got: String, want: &str) -> Result<(), String> {
    match got == want {
        true => Ok(()),
        false => Err(format!("{what}: got {got:?}, expected {want:?}")),
    }
}

fn html_matches(what: &str, got: &str, input: &str) -> Result<(), String> {
    let dec = decode(got).map_err(|e| format!("{what}: {e}"))?;
    if dec != input {
        return Err(format!("{what}: decodes to {dec:?} instead of {input:?}"));
    }
    eq(what, got.to_string(), &ref_escape(input))
}

fn specials(s: &str) -> usize {
    s.chars().filter(|c| SPECIAL.contains(c)).count()
}

fn gen_text(s: &mut Src) -> String {
    match s.below(10) {
        // long runs of harmless text with specials at arbitrary offsets
        0 | 1 => {
            let n = s.below(300);
            let mut v: Vec<char> = vec!['x'; n];
            for _ in 0..s.below(6) {
                if n > 0 {
                    let i = s.below(n);
                    v[i] = any_char(s);
                }
            }
            v.into_iter().collect()
        }
        2 => {
            let c = any_char(s);
            let d = any_char(s);
            format!("{c}{d}")
        }
        _ => any_string(s, 40),
    }
}

fn check_fn(x: &String) -> Check {
    html_matches("escape(_, Html)", &escape(x, Html).to_string(), x)?;
    eq("escape(_, Text)", escape(x, Text).to_string(), x)?;
    let mut w = String::from("pre");
    Html.write_escaped(&mut w, x).map_err(|e| e.to_string())?;
    html_matches("Html.write_escaped", &w[3..], x)?;
    let mut w = String::new();
    Text.write_escaped(&mut w, x).map_err(|e| e.to_string())?;
    eq("Text.write_escaped", w, x)?;
    // twice: exactly the ampersands of the references are escaped again
    let twice = escape(&escape(x, Html).to_string(), Html).to_string();
    eq("escaped twice", decode(&twice)?, &ref_escape(x))?;
    ok(specials(x) > 0 && x.len() > 1, vec![if specials(x) > 0 { "with_specials" } else { "plain" }])
}

/// Every char on its own and between its neighbours.
fn check_char(c: &u32) -> Check {
    for i in 0..64 {
        let Some(c) = char::from_u32(c * 64 + i) else { continue };
        for x in [format!("{c}"), format!("<{c}&"), format!("a{c}{c}b")] {
            html_matches("escape", &escape(&x, Html).to_string(), &x)?;
        }
    }
    ok(true, vec![])
}

#[derive(Debug)]
struct Chunks {
    text: String,
    chunks: Vec<(u8, String)>,
    width: usize,
}

struct Recorder(std::cell::RefCell<String>);
impl Escaper for Recorder {
    fn write_escaped<W: Write>(&self, mut fmt: W, string: &str) -> std::fmt::Result {
        self.0.borrow_mut().push_str(string);
        fmt.write_str(string)
    }
}

fn gen_chunks(s: &mut Src) -> Chunks {
    let text = gen_text(s);
    let c = Chunked::split(s, &text);
    Chunks { text, chunks: c.chunks, width: s.below(8) }
}

fn check_chunks(c: &Chunks) -> Check {
    let mk = || Chunked { chunks: c.chunks.clone() };
    let x = &c.text;
    eq("the generator", mk().to_string(), x)?;
    html_matches("new_unsafe", &MarkupDisplay::new_unsafe(mk(), Html).to_string(), x)?;
    let framed = format!("a{}b", MarkupDisplay::new_unsafe(mk(), Html));
    html_matches("new_unsafe in format!", &framed[1..framed.len() - 1], x)?;
    eq("new_safe", MarkupDisplay::new_safe(mk(), Html).to_string(), x)?;
    eq("mark_safe", MarkupDisplay::new_unsafe(mk(), Html).mark_safe().to_string(), x)?;
    eq("mark_safe twice", MarkupDisplay::new_safe(mk(), Html).mark_safe().to_string(), x)?;
    eq("new_unsafe Text", MarkupDisplay::new_unsafe(mk(), Text).to_string(), x)?;
    eq("new_safe Text", MarkupDisplay::new_safe(mk(), Text).to_string(), x)?;
    // nested: a safe value displayed by an unsafe one is escaped once, an unsafe one twice
    html_matches("unsafe(safe)", &MarkupDisplay::new_unsafe(MarkupDisplay::new_safe(mk(), Html), Html).to_string(), x)?;
    html_matches("safe(unsafe)", &MarkupDisplay::new_safe(MarkupDisplay::new_unsafe(mk(), Html), Html).to_string(), x)?;
    html_matches(
        "unsafe(unsafe)",
        &MarkupDisplay::new_unsafe(MarkupDisplay::new_unsafe(mk(), Html), Html).to_string(),
        &ref_escape(x),
    )?;
    // the filters are the same thing
    let f = askama::filters::escape(Html, mk()).map_err(|e| e.to_string())?.to_string();
    html_matches("filters::escape", &f, x)?;
    let f = askama::filters::e(Html, mk()).map_err(|e| e.to_string())?.to_string();
    html_matches("filters::e", &f, x)?;
    let f = askama::filters::safe(Html, mk()).map_err(|e| e.to_string())?.to_string();
    eq("filters::safe", f, x)?;
    // an escaper of the user sees all of the value, in order
    let rec = Recorder(Default::default());
    let out = MarkupDisplay::new_unsafe(mk(), &rec_ref(&rec)).to_string();
    eq("custom escaper output", out, x)?;
    eq("custom escaper input", rec.0.into_inner(), x)?;
    // values of other types
    for d in [&c.width as &dyn Display, &true, &-1.5f64, &'<', &x.as_str()] {
        html_matches("dyn Display", &MarkupDisplay::new_unsafe(d, Html).to_string(), &d.to_string())?;
    }
    ok(specials(x) > 0 && c.chunks.len() > 1, vec![if c.chunks.len() > 1 { "several_chunks" } else { "one_chunk" }])
}

struct RecRef<'a>(&'a Recorder);
impl Escaper for &RecRef<'_> {
    fn write_escaped<W: Write>(&self, fmt: W, string: &str) -> std::fmt::Result {
        self.0.write_escaped(fmt, string)
    }
}
fn rec_ref(r: &Recorder) -> RecRef<'_> {
    RecRef(r)
}

pub fn subs() -> Vec<Box<dyn SubDyn>> {
    vec![
        Box::new(Sub { name: "escape", quick: 400_000, gen: gen_text, check: check_fn }),
        Box::new(Sub { name: "chunks", quick: 200_000, gen: gen_chunks, check: check_chunks }),
        Box::new(Sub { name: "chars", quick: 17408, gen: |s| s.below(17408) as u32, check: check_char }),
    ]
}
