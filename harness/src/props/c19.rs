//! C19 (in-process part): the default methods of `Template` and `DynTemplate` for templates written
//! by hand, with values and writers that fail at every possible point.
use crate::runner::{ok, Check, Sub, SubDyn};
use crate::source::Src;
use crate::strings::*;
use askama::{DynTemplate, Template};
use std::fmt;
use std::io;

/// Writes its chunks; fails after `fail` chunks.
struct Tpl {
    chunks: Vec<(u8, String)>,
    fail: Option<usize>,
    custom: bool,
}

impl Template for Tpl {
    fn render_into(&self, writer: &mut (impl fmt::Write + ?Sized)) -> askama::Result<()> {
        for (i, c) in self.chunks.iter().enumerate() {
            if self.fail == Some(i) {
                return Err(match self.custom {
                    true => askama::Error::Custom("custom failure".into()),
                    false => askama::Error::Fmt(fmt::Error),
                });
            }
            match c.0 {
                0 => writer.write_str(&c.1)?,
                1 => {
                    for ch in c.1.chars() {
                        writer.write_char(ch)?;
                    }
                }
                _ => write!(writer, "{}", c.1)?,
            }
        }
        Ok(())
    }
    const EXTENSION: Option<&'static str> = Some("html");
    const SIZE_HINT: usize = 7;
    const MIME_TYPE: &'static str = "text/html; charset=utf-8";
}

impl fmt::Display for Tpl {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.render_into(f).map_err(|_| fmt::Error)
    }
}

#[derive(Debug)]
struct Case {
    chunks: Vec<(u8, String)>,
    fail: Option<usize>,
    custom: bool,
    /// bytes that a writer accepts before it fails
    limit: usize,
    /// bytes that a writer accepts at once
    step: usize,
    /// the writer reports `Interrupted` every so many calls
    interrupt: usize,
    /// the writer returns Ok(0) instead of an error
    zero: bool,
}

fn gen(s: &mut Src) -> Case {
    let text = any_string(s, 20);
    let chunks = Chunked::split(s, &text).chunks;
    let fail = if s.chance(35) { Some(s.below(chunks.len() + 1)) } else { None };
    Case {
        fail,
        custom: s.chance(50),
        limit: if s.chance(60) { s.below(text.len() + 2) } else { usize::MAX },
        step: 1 + s.below(9),
        interrupt: if s.chance(30) { 2 + s.below(3) } else { 0 },
        zero: s.chance(20),
        chunks,
    }
}

struct W {
    got: Vec<u8>,
    limit: usize,
    step: usize,
    interrupt: usize,
    calls: usize,
    zero: bool,
    failed: bool,
    calls_after_failure: usize,
}

impl io::Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = buf.len().min(self.step).min(self.limit - self.got.len());
        if n == 0 && !buf.is_empty() {
            if self.failed {
                self.calls_after_failure += 1;
            }
            self.failed = true;
            return match self.zero {
                true => Ok(0),
                false => Err(io::Error::new(io::ErrorKind::StorageFull, "the disk is full")),
            };
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct FW {
    got: String,
    limit: usize,
    failed: bool,
}

impl fmt::Write for FW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.limit {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn check(c: &Case) -> Check {
    let t = Tpl { chunks: c.chunks.clone(), fail: c.fail, custom: c.custom };
    let fails = c.fail.is_some_and(|n| n < c.chunks.len());
    let upto = c.fail.unwrap_or(usize::MAX);
    let full: String = c.chunks.iter().take(upto).map(|c| c.1.as_str()).collect();
    let d: &dyn DynTemplate = &t;
    let err = |m: String| Err::<(), String>(m);
    // String results
    for (name, r) in [("render", t.render()), ("(&t).render", Template::render(&&t)), ("dyn_render", d.dyn_render())] {
        match r {
            Ok(s) if !fails && s == full => {}
            Err(e) if fails => check_error(name, &e, c.custom)?,
            r => err(format!("{name}: {r:?}, expected {full:?}, fails: {fails}"))?,
        }
    }
    if !fails {
        for (name, s) in [("to_string", t.to_string()), ("format", format!("{t}")), ("dyn to_string", d.to_string())] {
            if s != full {
                err(format!("{name}: {s:?}, expected {full:?}"))?;
            }
        }
    } else {
        use fmt::Write;
        let mut s = String::new();
        if write!(s, "{d}").is_ok() {
            err("Display of dyn DynTemplate hides the error".into())?;
        }
    }
    // fmt::Write
    for (name, which) in [("render_into", 0), ("dyn_render_into", 1), ("(&t).render_into", 2)] {
        let mut w = FW { got: String::new(), limit: c.limit, failed: false };
        let r = match which {
            0 => t.render_into(&mut w),
            1 => d.dyn_render_into(&mut w),
            _ => Template::render_into(&&t, &mut w),
        };
        if !full.starts_with(&w.got) {
            err(format!("{name}: wrote {:?}, no prefix of {full:?}", w.got))?;
        }
        if r.is_ok() != (!fails && !w.failed) {
            err(format!("{name}: {r:?}, template fails: {fails}, writer failed: {}", w.failed))?;
        }
        if r.is_ok() && w.got != full {
            err(format!("{name}: Ok but wrote {:?} of {full:?}", w.got))?;
        }
    }
    // io::Write
    for (name, which) in [("write_into", 0), ("dyn_write_into", 1), ("(&t).write_into", 2)] {
        let mut w = W {
            got: vec![],
            limit: c.limit,
            step: c.step,
            interrupt: c.interrupt,
            calls: 0,
            zero: c.zero,
            failed: false,
            calls_after_failure: 0,
        };
        let r = match which {
            0 => t.write_into(&mut w),
            1 => d.dyn_write_into(&mut w),
            _ => Template::write_into(&&t, &mut w),
        };
        let expect_writer_error = c.limit < full.len();
        if w.failed != expect_writer_error {
            err(format!("{name}: the writer was expected to run full: {expect_writer_error}"))?;
        }
        if !full.as_bytes().starts_with(&w.got) {
            err(format!("{name}: wrote {:?}, no prefix of {full:?}", w.got))?;
        }
        match r {
            Ok(()) if !fails && !w.failed => {
                if w.got != full.as_bytes() {
                    err(format!("{name}: Ok but wrote {:?} of {full:?}", w.got))?;
                }
            }
            Err(e) if w.failed => {
                let kind = if c.zero { io::ErrorKind::WriteZero } else { io::ErrorKind::StorageFull };
                if e.kind() != kind {
                    err(format!("{name}: the error of the writer is lost: {e:?}"))?;
                }
                if w.calls_after_failure > 0 {
                    err(format!("{name}: writes again after the writer failed"))?;
                }
            }
            Err(e) if fails => {
                if c.custom && !e.to_string().contains("custom failure") {
                    err(format!("{name}: the error of the template is lost: {e:?}"))?;
                }
            }
            r => err(format!("{name}: {r:?}, template fails: {fails}, writer failed: {}", w.failed))?,
        }
    }
    // constants
    if (d.extension(), d.size_hint(), d.mime_type()) != (Some("html"), 7, "text/html; charset=utf-8")
        || (<&Tpl>::EXTENSION, <&Tpl>::SIZE_HINT, <&Tpl>::MIME_TYPE) != (Some("html"), 7, "text/html; charset=utf-8")
    {
        err("the constants differ".into())?;
    }
    ok(
        !full.is_empty() && (fails || c.limit < full.len()),
        vec![if fails { "template_fails" } else { "template_ok" }, if c.limit < full.len() { "writer_fails" } else { "writer_ok" }],
    )
}

fn check_error(name: &str, e: &askama::Error, custom: bool) -> Result<(), String> {
    match (e, custom) {
        (askama::Error::Custom(e), true) if e.to_string() == "custom failure" => Ok(()),
        (askama::Error::Fmt(_), false) => Ok(()),
        _ => Err(format!("{name}: wrong error {e:?}")),
    }
}

pub fn subs() -> Vec<Box<dyn SubDyn>> {
    vec![Box::new(Sub { name: "entry_points", quick: 400_000, gen, check })]
}
