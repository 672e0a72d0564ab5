//! String generators.
use crate::source::Src;

/// Characters grouped so that interesting neighbourhoods are common.
pub const SPECIAL: &[char] = &['&', '<', '>', '"', '\''];
const NEAR: &[char] = &['!', '#', '$', '%', '(', '=', '?', '@', ';', ':', '/', '\u{a0}'];
const MULTI: &[char] = &[
    'é', 'ß', 'Ω', '\u{300}', '中', '日', '🦀', '\u{10ffff}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', 'İ', 'ŉ',
    'ǆ', 'ﬁ', 'Σ', '\u{2028}', '\u{feff}', '\u{10000}', '\u{bc}', '\u{a6}', '\u{2260}', '\u{43c}',
];
const WS: &[char] = &[' ', '\n', '\t', '\r', '\u{b}', '\u{a0}', '\u{3000}', '\u{2003}', '\u{85}'];

pub fn any_char(s: &mut Src) -> char {
    match s.below(9) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 | 2 => s.of(SPECIAL),
        3 => s.of(NEAR),
        4 => s.of(MULTI),
        5 => s.of(WS),
        6 => s.below(128) as u8 as char,
        7 => char::from_u32(s.below(0x800) as u32).unwrap_or('x'),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

/// Arbitrary string, all kinds of characters.
pub fn any_string(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n).map(|_| any_char(s)).collect()
}

/// Short readable strings with the characters that matter to templates.
pub fn value_string(s: &mut Src, max: usize) -> String {
    const PIECES: &[&str] = &[
        "a", "b", "Zz", "x1", "<", ">", "&", "\"", "'", " ", "&amp;", "<b>", "é", "日本", "🦀", "{{", "}}", "{%", "\\",
        "\n", "{", "}", "%", "0", "Hello", "\t", "ẞ", "  ",
    ];
    let n = s.len(max);
    (0..n).map(|_| s.pick(PIECES)).collect()
}

pub fn word(s: &mut Src) -> String {
    const W: &[&str] = &["a", "b", "foo", "Bar", "x1", "é", "QUX", "z z", "1", "中"];
    s.pick(W).to_string()
}

/// Rust string literal of `x` that is accepted by rustc; also used for template literals.
pub fn rust_str(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32 >= 0x7f && c.is_control()) || is_bidi(c) => {
                o.push_str(&format!("\\u{{{:x}}}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn is_bidi(c: char) -> bool {
    matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{2028}' | '\u{2029}' | '\u{200e}' | '\u{200f}' | '\u{feff}')
}

/// A value that writes its text in the given chunks, with a mix of writer methods.
pub struct Chunked {
    pub chunks: Vec<(u8, String)>,
}

impl Chunked {
    /// Splits `x` at random character boundaries.
    pub fn split(s: &mut Src, x: &str) -> Chunked {
        let mut chunks = vec![];
        let chars: Vec<char> = x.chars().collect();
        let mut i = 0;
        while i < chars.len() {
            let most = if s.chance(30) { 1 } else { 6 };
            let n = 1 + s.below((chars.len() - i).min(most));
            chunks.push((s.below(4) as u8, chars[i..i + n].iter().collect()));
            i += n;
            if s.chance(10) {
                chunks.push((0, String::new()));
            }
        }
        Chunked { chunks }
    }
}

impl std::fmt::Display for Chunked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        for (kind, c) in &self.chunks {
            match kind {
                0 => f.write_str(c)?,
                1 => {
                    for ch in c.chars() {
                        f.write_char(ch)?;
                    }
                }
                2 => write!(f, "{c}")?,
                _ => {
                    // several pieces in one write!
                    let mid = c.char_indices().map(|(i, _)| i).nth(c.chars().count() / 2).unwrap_or(0);
                    write!(f, "{}{}", &c[..mid], &c[mid..])?
                }
            }
        }
        Ok(())
    }
}
