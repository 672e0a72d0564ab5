//! Reference interpreter: what a project renders for given fields.
use super::ast::*;
use crate::props::c01::ref_escape;
use std::collections::BTreeMap;

#[derive(Debug)]
pub enum Stop {
    /// a filter failed
    Err(String),
    /// the case is not usable (overflow, too much output, …)
    Discard(&'static str),
}

type Res<T> = Result<T, Stop>;

pub enum Flow {
    Next,
    Break,
    Continue,
}

#[derive(Clone, Default)]
pub struct Env {
    /// variables; None: declared, but not initialized
    scopes: Vec<Vec<(String, Option<Val>)>>,
    loops: Vec<(usize, bool, bool)>,
}

impl Env {
    pub fn new() -> Env {
        Env { scopes: vec![vec![]], loops: vec![] }
    }
    fn bind(&mut self, n: &str, v: Option<Val>) {
        self.scopes.last_mut().unwrap().push((n.to_string(), v));
    }
}

/// Where the interpreter is: the file, the inheritance chain it renders, and the current block.
#[derive(Clone)]
struct At<'a> {
    file: usize,
    chain: &'a [usize],
    block: Option<(&'a str, usize)>,
    /// files whose macros and imports are visible, too
    outer: Vec<usize>,
}

pub struct Interp<'a> {
    pub p: &'a Project,
    pub fields: &'a BTreeMap<String, Val>,
    pub html: bool,
    pub out: Vec<String>,
    pub log: Vec<i64>,
    /// effects of loop conditions (their order relative to others is not specified)
    pub clog: Vec<i64>,
    /// what was executed
    pub seen: BTreeMap<&'static str, usize>,
    pub steps: usize,
}

pub fn extends(p: &Project, file: usize) -> Option<usize> {
    p.files[file].nodes.iter().find_map(|n| match n {
        Nd::Extends(_, t) => Some(*t),
        _ => None,
    })
}

pub fn chain(p: &Project, file: usize) -> Vec<usize> {
    let mut v = vec![file];
    while let Some(f) = extends(p, *v.last().unwrap()) {
        v.push(f);
    }
    v
}

pub fn find_block<'a>(nodes: &'a [Nd], name: &str) -> Option<&'a Vec<Nd>> {
    for n in nodes {
        match n {
            Nd::Block { name: b, body, .. } if b == name => return Some(body),
            Nd::Macro { .. } => {}
            n => {
                for c in n.children() {
                    if let Some(b) = find_block(c, name) {
                        return Some(b);
                    }
                }
            }
        }
    }
    None
}

pub fn show_filter(name: &str) -> bool {
    matches!(name, "safe" | "e" | "escape")
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Project, fields: &'a BTreeMap<String, Val>, html: bool) -> Interp<'a> {
        Interp { p, fields, html, out: vec![String::new()], log: vec![], clog: vec![], seen: BTreeMap::new(), steps: 0 }
    }

    /// Renders a file, or only a block of it. The error of a filter replaces the output.
    pub fn render(&mut self, file: usize, block: Option<&str>) -> Result<String, &'static str> {
        let ch = chain(self.p, file);
        let mut env = Env::new();
        let root = *ch.last().unwrap();
        let r = match block {
            None => {
                let at = At { file: root, chain: &ch, block: None, outer: vec![] };
                self.nodes(&at, &self.p.files[root].nodes, &mut env).map(|_| ())
            }
            Some(b) => {
                let at = At { file: root, chain: &ch, block: None, outer: vec![] };
                self.block(&at, b, 0)
            }
        };
        match r {
            Ok(()) => Ok(std::mem::take(&mut self.out[0])),
            Err(Stop::Err(e)) => Ok(format!("Err({e})")),
            Err(Stop::Discard(m)) => Err(m),
        }
    }

    fn saw(&mut self, what: &'static str) {
        *self.seen.entry(what).or_default() += 1;
    }

    fn emit(&mut self, s: &str) -> Res<()> {
        let o = self.out.last_mut().unwrap();
        o.push_str(s);
        match o.len() > 20_000 {
            true => Err(Stop::Discard("output too long")),
            false => Ok(()),
        }
    }

    fn escape(&self, s: &str) -> String {
        match self.html {
            true => ref_escape(s),
            false => s.to_string(),
        }
    }

    // ---- nodes ----

    fn nodes(&mut self, at: &At, ns: &[Nd], env: &mut Env) -> Res<Flow> {
        for n in ns {
            match self.node(at, n, env)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }

    fn scoped(&mut self, at: &At, ns: &[Nd], env: &mut Env) -> Res<Flow> {
        env.scopes.push(vec![]);
        let r = self.nodes(at, ns, env);
        env.scopes.pop();
        r
    }

    fn write(&mut self, v: &Val, wrapped: bool) -> Res<()> {
        let s = v.show();
        let s = if wrapped { s } else { self.escape(&s) };
        self.emit(&s)
    }

    fn node(&mut self, at: &At, n: &Nd, env: &mut Env) -> Res<Flow> {
        self.steps += 1;
        if self.steps > 20_000 {
            return Err(Stop::Discard("too many steps"));
        }
        match n {
            Nd::Text(id) | Nd::Raw(_, Some(id), _) => {
                let t = self.p.trimmed[*id].clone();
                self.emit(&t)?;
                self.saw(if matches!(n, Nd::Text(_)) { "text" } else { "raw" });
            }
            Nd::Src(_) | Nd::Comment(..) | Nd::Raw(..) | Nd::Import(..) | Nd::Extends(..) | Nd::Macro { .. } => {}
            Nd::Expr(_, e) => {
                let v = self.eval(e, env)?;
                let wrapped = matches!(e, Ex::Filt(_, f, _) if show_filter(f));
                self.saw("expr");
                if wrapped {
                    self.saw("wrapped");
                }
                self.write(&v, wrapped)?;
            }
            Nd::If(cs, _) => {
                for (i, c) in cs.iter().enumerate() {
                    let mut binds = vec![];
                    let hit = match &c.test {
                        None => true,
                        Some((None, e)) => self.eval(e, env)? == Val::B(true),
                        Some((Some(p), e)) => {
                            let v = self.eval(e, env)?;
                            matches(p, &v, &mut binds)
                        }
                    };
                    if hit {
                        self.saw(match (i, &c.test) {
                            (_, None) => "if_else",
                            (_, Some((Some(_), _))) => "if_let",
                            (0, _) => "if_first",
                            _ => "if_elif",
                        });
                        env.scopes.push(vec![]);
                        for (n, v) in binds {
                            env.bind(&n, Some(v));
                        }
                        let r = self.nodes(at, &c.body, env);
                        env.scopes.pop();
                        return r;
                    }
                }
                self.saw("if_none");
            }
            Nd::For { pat, iter, cond, body, els, .. } => {
                let it = self.iter(iter, env)?;
                let mut items = vec![];
                for v in it {
                    let mut binds = vec![];
                    if !matches(pat, &v, &mut binds) {
                        return Err(Stop::Discard("loop pattern does not match"));
                    }
                    items.push(binds);
                }
                // the condition sees the variables of the pattern, but not `loop`
                if let Some(c) = cond {
                    let mut kept = vec![];
                    for b in items {
                        env.scopes.push(vec![]);
                        for (n, v) in &b {
                            env.bind(n, Some(v.clone()));
                        }
                        let ok = self.eval(c, env);
                        env.scopes.pop();
                        if ok? == Val::B(true) {
                            kept.push(b);
                        } else {
                            self.saw("for_skipped");
                        }
                    }
                    items = kept;
                }
                let n = items.len();
                self.saw(match n {
                    0 => "for_empty",
                    1 => "for_one",
                    _ => "for_many",
                });
                for (i, b) in items.into_iter().enumerate() {
                    env.scopes.push(vec![]);
                    for (n, v) in b {
                        env.bind(&n, Some(v));
                    }
                    env.loops.push((i, i == 0, i + 1 == n));
                    let r = self.nodes(at, body, env);
                    env.loops.pop();
                    env.scopes.pop();
                    match r? {
                        Flow::Break => {
                            self.saw("break");
                            break;
                        }
                        Flow::Continue => self.saw("continue"),
                        Flow::Next => {}
                    }
                }
                if n == 0 {
                    if let Some((_, ns)) = els {
                        self.saw("for_else");
                        return self.scoped(at, ns, env);
                    }
                }
            }
            Nd::Match { ex, arms, .. } => {
                let v = self.eval(ex, env)?;
                for (i, (_, p, body)) in arms.iter().enumerate() {
                    let mut binds = vec![];
                    if p.as_ref().map_or(true, |p| matches(p, &v, &mut binds)) {
                        self.saw(match (p, i) {
                            (None, _) => "match_else",
                            (_, 0) => "match_first",
                            _ => "match_later",
                        });
                        env.scopes.push(vec![]);
                        for (n, v) in binds {
                            env.bind(&n, Some(v));
                        }
                        let r = self.nodes(at, body, env);
                        env.scopes.pop();
                        return r;
                    }
                }
                return Err(Stop::Discard("no arm matches"));
            }
            Nd::Let(_, p, None) => {
                if let Pat::Name(n) = p {
                    env.bind(n, None);
                }
            }
            Nd::Let(_, p, Some(e)) => {
                let v = self.eval(e, env)?;
                self.saw("let");
                if let Pat::Name(n) = p {
                    let slot = env.scopes.iter_mut().rev().flat_map(|s| s.iter_mut().rev()).find(|x| &x.0 == n);
                    match slot {
                        Some((_, s)) if s.is_none() => {
                            *s = Some(v);
                            self.saw("assign");
                            return Ok(Flow::Next);
                        }
                        Some(_) => self.saw("shadow_var"),
                        None if self.fields.contains_key(n) => self.saw("shadow_field"),
                        None => {}
                    }
                    env.bind(n, Some(v));
                } else {
                    let mut binds = vec![];
                    if !matches(p, &v, &mut binds) {
                        return Err(Stop::Discard("let pattern does not match"));
                    }
                    for (n, v) in binds {
                        env.bind(&n, Some(v));
                    }
                }
            }
            Nd::Block { name, .. } => self.block(at, name, 0)?,
            Nd::Super(..) => {
                let Some((b, gen)) = at.block else { return Err(Stop::Discard("super outside of a block")) };
                self.saw("super");
                self.block(at, b, gen + 1)?;
            }
            Nd::Include(_, _, f) => {
                self.saw("include");
                if at.file != 0 || !at.outer.is_empty() {
                    self.saw("include_nested");
                }
                let ch = chain(self.p, *f);
                let root = *ch.last().unwrap();
                let mut outer = vec![at.file];
                outer.extend_from_slice(&at.outer);
                if *f != root {
                    outer.insert(0, *f);
                }
                let at = At { file: root, chain: &ch, block: None, outer };
                self.scoped(&at, &self.p.files[root].nodes, env)?;
            }
            Nd::Call { scope, name, args, .. } => {
                let (def_file, def) = self.find_macro(at, scope.as_deref(), name)?;
                let Nd::Macro { params, body, .. } = def else { unreachable!() };
                let mut vals: Vec<(String, Val)> = vec![];
                for (i, p) in params.iter().enumerate() {
                    let a = args
                        .iter()
                        .find(|(n, _)| n.as_ref() == Some(p))
                        .or_else(|| args.get(i).filter(|(n, _)| n.is_none()))
                        .ok_or(Stop::Discard("macro argument"))?;
                    vals.push((p.clone(), self.eval(&a.1, env)?));
                }
                self.saw("call");
                if scope.is_some() {
                    self.saw("call_imported");
                }
                // the body sees its parameters; bodies use nothing else of the caller
                let mut inner = Env { scopes: vec![vec![]], loops: vec![] };
                for (n, v) in vals {
                    inner.bind(&n, Some(v));
                }
                let at = At { file: def_file, chain: at.chain, block: at.block, outer: at.outer.clone() };
                self.nodes(&at, body, &mut inner)?;
            }
            Nd::Filter { filters, body, .. } => {
                self.out.push(String::new());
                let r = self.scoped(at, body, env);
                let content = self.out.pop().unwrap();
                r?;
                let mut v = Val::S(content);
                for (f, args) in filters {
                    let mut vals = vec![];
                    for a in args {
                        vals.push(self.eval(a, env)?);
                    }
                    v = self.filter(f, v, vals)?;
                }
                self.saw("filter_block");
                self.write(&v, show_filter(&filters.last().unwrap().0))?;
            }
            Nd::Break(_) => return Ok(Flow::Break),
            Nd::Continue(_) => return Ok(Flow::Continue),
        }
        Ok(Flow::Next)
    }

    fn block(&mut self, at: &At, name: &str, gen: usize) -> Res<()> {
        let defs: Vec<(usize, &'a Vec<Nd>)> = at
            .chain
            .iter()
            .filter_map(|&f| find_block(&self.p.files[f].nodes, name).map(|b| (f, b)))
            .collect();
        let Some((file, body)) = defs.get(gen) else { return Err(Stop::Discard("no such block")) };
        self.saw("block");
        if defs.len() > 1 && gen == 0 {
            self.saw("block_overridden");
        }
        if at.block.is_some() && gen == 0 {
            self.saw("block_nested");
        }
        let mut outer = vec![at.file];
        outer.extend_from_slice(&at.outer);
        let at = At { file: *file, chain: at.chain, block: Some((name, gen)), outer };
        self.nodes(&at, body, &mut Env::new()).map(|_| ())
    }

    fn find_macro(&self, at: &At, scope: Option<&str>, name: &str) -> Res<(usize, &'a Nd)> {
        for f in std::iter::once(&at.file).chain(&at.outer) {
            let nodes = &self.p.files[*f].nodes;
            let target = match scope {
                None => Some(*f),
                Some(s) => nodes.iter().find_map(|n| match n {
                    Nd::Import(_, _, sc, t) if sc == s => Some(*t),
                    _ => None,
                }),
            };
            let Some(t) = target else { continue };
            let def = self.p.files[t].nodes.iter().find(|n| matches!(n, Nd::Macro { name: m, .. } if m == name));
            if let Some(d) = def {
                // without scope the macro runs where it was called
                return Ok((if scope.is_some() { t } else { at.file }, d));
            }
        }
        Err(Stop::Discard("no such macro"))
    }

    // ---- expressions ----

    fn iter(&mut self, e: &Ex, env: &mut Env) -> Res<Vec<Val>> {
        if let Ex::Range(a, b, incl) = e {
            return match (self.eval(a, env)?, self.eval(b, env)?) {
                // the body has to leave the loop
                (Val::I(a), Val::Unit) => Ok((a..a + 40).map(Val::I).collect()),
                (Val::I(a), Val::I(b)) => Ok((a..b + *incl as i64).map(Val::I).collect()),
                (Val::U(a), Val::U(b)) => Ok((a..b + *incl as usize).map(Val::U).collect()),
                _ => Err(Stop::Discard("range")),
            };
        }
        match self.eval(e, env)? {
            Val::L(v) => Ok(v),
            Val::O(v) => Ok(v.into_iter().map(Val::I).collect()),
            _ => Err(Stop::Discard("not iterable")),
        }
    }

    pub fn eval(&mut self, e: &Ex, env: &mut Env) -> Res<Val> {
        self.steps += 1;
        Ok(match e {
            Ex::Lit(v, _) => v.clone(),
            Ex::Var(n) => {
                let local = env.scopes.iter().rev().flat_map(|s| s.iter().rev()).find(|x| &x.0 == n);
                match local {
                    Some((_, Some(v))) => {
                        let v = v.clone();
                        self.saw("local");
                        v
                    }
                    Some(_) => return Err(Stop::Discard("not initialized")),
                    None => self.field(n)?,
                }
            }
            Ex::Slf(n) => self.field(n)?,
            Ex::Attr(x, a) => match (self.eval(x, env)?, a.as_str()) {
                (Val::P(n, _), "n") => Val::I(n),
                (Val::P(_, s), "s") => Val::S(s),
                (Val::T(v), a) => a.parse().ok().and_then(|i: usize| v.get(i).cloned()).ok_or(Stop::Discard("tuple field"))?,
                _ => return Err(Stop::Discard("attribute")),
            },
            Ex::Idx(x, i) => {
                let x = self.eval(x, env)?;
                match (x, self.eval(i, env)?) {
                    (Val::L(v), Val::U(i)) => v.get(i).cloned().ok_or(Stop::Discard("index"))?,
                    _ => return Err(Stop::Discard("index")),
                }
            }
            Ex::Bin(op, a, b) => {
                let x = self.eval(a, env)?;
                match (*op, &x) {
                    ("&&", Val::B(false)) => return Ok(Val::B(false)),
                    ("||", Val::B(true)) => return Ok(Val::B(true)),
                    _ => {}
                }
                let y = self.eval(b, env)?;
                binop(op, x, y)?
            }
            Ex::Un("!", x) => match self.eval(x, env)? {
                Val::B(b) => Val::B(!b),
                Val::I(i) => Val::I(!i),
                _ => return Err(Stop::Discard("not")),
            },
            Ex::Un(_, x) => match self.eval(x, env)? {
                Val::I(i) => Val::I(i.checked_neg().ok_or(Stop::Discard("overflow"))?),
                _ => return Err(Stop::Discard("neg")),
            },
            Ex::Call(f, args) => {
                let args = self.all(args, env)?;
                self.call(f, args)?
            }
            Ex::Meth(x, m, args) => {
                let x = self.eval(x, env)?;
                let args = self.all(args, env)?;
                self.meth(x, m, args)?
            }
            Ex::Filt(x, f, args) => {
                let x = self.eval(x, env)?;
                let args = self.all(args, env)?;
                self.saw("filter");
                self.filter(f, x, args)?
            }
            Ex::Arr(es) => Val::L(self.all(es, env)?),
            Ex::Tup(es) => Val::T(self.all(es, env)?),
            Ex::Group(x) => self.eval(x, env)?,
            Ex::Range(..) => Val::L(self.iter(e, env)?),
            Ex::Loop(a) => {
                let Some(&(i, first, last)) = env.loops.last() else { return Err(Stop::Discard("no loop")) };
                self.saw("loop_var");
                match *a {
                    "index" => Val::U(i + 1),
                    "index0" => Val::U(i),
                    "first" => Val::B(first),
                    _ => Val::B(last),
                }
            }
            Ex::Try(x) => {
                self.saw("try");
                self.eval(x, env)?
            }
            Ex::Format(f, es) => {
                let mut out = String::new();
                let mut vs = self.all(es, env)?.into_iter();
                let mut parts = f.split("{}");
                out.push_str(parts.next().unwrap());
                for p in parts {
                    out.push_str(&vs.next().unwrap().show());
                    out.push_str(p);
                }
                self.saw("rust_macro");
                Val::S(out)
            }
            Ex::Cycle(es) => {
                let vs = self.all(es, env)?;
                let Some(&(i, ..)) = env.loops.last() else { return Err(Stop::Discard("no loop")) };
                self.saw("cycle");
                vs[i % vs.len()].clone()
            }
        })
    }

    fn all(&mut self, es: &[Ex], env: &mut Env) -> Res<Vec<Val>> {
        es.iter().map(|e| self.eval(e, env)).collect()
    }

    fn field(&mut self, n: &str) -> Res<Val> {
        self.saw("field");
        self.fields.get(n.strip_prefix("r#").unwrap_or(n)).cloned().ok_or(Stop::Discard("no such field"))
    }

    fn call(&mut self, f: &str, args: Vec<Val>) -> Res<Val> {
        let f = f.strip_prefix("crate::").unwrap_or(f);
        let f = f.strip_prefix("p::").unwrap_or(f);
        let f = match f {
            "tickm!" => "tick",
            "lgm!" => "lg",
            f => f,
        };
        let int = |i: usize| match args.get(i) {
            Some(Val::I(x)) => Ok(*x),
            _ => Err(Stop::Discard("argument")),
        };
        if matches!(f, "lg" | "lgb" | "lgo" | "lgv" | "lgp" | "lgu" | "lgr") {
            self.log.push(int(0)?);
            self.saw("effect");
        }
        Ok(match f {
            "lgr" => Val::S(args[1].show()),
            "lgu" => Val::U(int(1)? as usize),
            "tick" => {
                self.log.push(-1);
                self.saw("effect");
                Val::I((self.log.len() % 7) as i64)
            }
            "lg" => Val::I(int(1)?),
            "lgb" => Val::B(int(1)? != 0),
            "lgo" => Val::O(Some(int(1)?).filter(|x| *x != 0)),
            "lgv" => Val::L((0..int(1)?).map(Val::I).collect()),
            "lgp" => Val::P(int(1)?, "p".into()),
            "lgc" => {
                self.clog.push(int(0)?);
                Val::B(int(1)? > 0)
            }
            "add" => Val::I(int(0)?.checked_add(int(1)?).ok_or(Stop::Discard("overflow"))?),
            "twice" => Val::I(int(0)?.checked_mul(2).ok_or(Stop::Discard("overflow"))?),
            // the body has to leave the loop
            "endless" => Val::L((int(0)?..int(0)? + 40).map(Val::I).collect()),
            "odd" => Val::L((0..int(0)?).map(|x| Val::I(x + 5)).collect()),
            "list" => Val::L((0..int(0)?).map(|x| Val::I(x * 10)).collect()),
            "okay" => Val::S(args[0].show()),
            "nay" => match args[0].show() == args[1].show() {
                true => return Err(Stop::Err("an error occurred when formatting an argument".into())),
                false => Val::S(args[0].show()),
            },
            "cat" => Val::S(format!("{}{}", args[0].show(), args[1].show())),
            _ => return Err(Stop::Discard("function")),
        })
    }

    fn meth(&mut self, x: Val, m: &str, args: Vec<Val>) -> Res<Val> {
        Ok(match (m, x) {
            ("v" | "iter" | "clone" | "as_str", x) => x,
            ("to_string", x) => Val::S(x.show()),
            ("len", Val::L(v)) => Val::U(v.len()),
            ("len", Val::S(s)) => Val::U(s.len()),
            ("is_empty", Val::L(v)) => Val::B(v.is_empty()),
            ("is_empty", Val::S(s)) => Val::B(s.is_empty()),
            ("is_some", Val::O(o)) => Val::B(o.is_some()),
            ("is_none", Val::O(o)) => Val::B(o.is_none()),
            ("unwrap_or", Val::O(o)) => match &args[0] {
                Val::I(d) => Val::I(o.unwrap_or(*d)),
                _ => return Err(Stop::Discard("argument")),
            },
            ("enumerate", Val::L(v)) => Val::L(v.into_iter().enumerate().map(|(i, x)| Val::T(vec![Val::U(i), x])).collect()),
            ("rev", Val::L(mut v)) => {
                v.reverse();
                Val::L(v)
            }
            ("skip", Val::L(v)) => match &args[0] {
                Val::U(n) => Val::L(v.into_iter().skip(*n).collect()),
                _ => return Err(Stop::Discard("argument")),
            },
            ("dbl", Val::Unit) => match (&args[0], self.field("i")?) {
                (Val::I(a), Val::I(i)) => Val::I(a.checked_mul(2).and_then(|a| a.checked_add(i)).ok_or(Stop::Discard("overflow"))?),
                _ => return Err(Stop::Discard("argument")),
            },
            _ => return Err(Stop::Discard("method")),
        })
    }

    fn filter(&mut self, f: &str, x: Val, args: Vec<Val>) -> Res<Val> {
        let arg = |i: usize| args[i].show();
        if matches!(f, "json" | "tojson") {
            return Ok(Val::S(json(&x).ok_or(Stop::Discard("json"))?));
        }
        if f == "join" {
            let Val::L(v) = x else { return Err(Stop::Discard("join")) };
            return Ok(Val::S(v.iter().map(|x| x.show()).collect::<Vec<_>>().join(&arg(0))));
        }
        if f == "plus" {
            return match (&x, &args[0]) {
                (Val::I(a), Val::I(b)) => Ok(Val::I(a.checked_add(*b).ok_or(Stop::Discard("overflow"))?)),
                _ => Err(Stop::Discard("argument")),
            };
        }
        if let ("into_isize" | "into_f64", Val::I(a)) = (f, &x) {
            return Ok(if f == "into_f64" { Val::S(format!("{}", *a as f64)) } else { x });
        }
        if f == "abs" {
            return match x {
                Val::I(a) => Ok(Val::I(a.checked_abs().ok_or(Stop::Discard("overflow"))?)),
                _ => Err(Stop::Discard("argument")),
            };
        }
        let s = x.show();
        let usize_arg = || match args.first() {
            Some(Val::U(n)) => Ok(*n),
            _ => Err(Stop::Discard("argument")),
        };
        Ok(Val::S(match f {
            "safe" => s,
            "e" | "escape" => match args.first() {
                Some(Val::S(m)) if m == "none" => s,
                Some(_) => ref_escape(&s),
                None => self.escape(&s),
            },
            "upper" | "uppercase" => s.to_uppercase(),
            "lower" | "lowercase" => s.to_lowercase(),
            "trim" => s.trim().to_string(),
            "capitalize" => {
                let mut c = s.chars();
                match c.next() {
                    Some(f) => f.to_uppercase().collect::<String>() + &c.as_str().to_lowercase(),
                    None => s,
                }
            }
            "wordcount" => return Ok(Val::U(s.split_whitespace().count())),
            "truncate" => {
                let n = usize_arg()?;
                match (s.len() <= n, s.is_char_boundary(n)) {
                    (true, _) => s,
                    (false, true) => format!("{}...", &s[..n]),
                    _ => return Err(Stop::Discard("truncate inside of a character")),
                }
            }
            "title" => {
                let mut start = true;
                let mut out = String::new();
                for c in s.chars() {
                    match (c.is_whitespace(), start) {
                        (true, _) => out.push(c),
                        (_, true) => out.extend(c.to_uppercase()),
                        (_, false) => out.extend(c.to_lowercase()),
                    }
                    start = c.is_whitespace();
                }
                out
            }
            "center" => {
                let pad = usize_arg()?.saturating_sub(s.chars().count());
                format!("{}{s}{}", " ".repeat(pad / 2), " ".repeat(pad - pad / 2))
            }
            "indent" => {
                let (text, end) = match s.strip_suffix('\n') {
                    Some(t) => (t, "\n"),
                    None => (&s[..], ""),
                };
                text.replace('\n', &format!("\n{}", " ".repeat(usize_arg()?))) + end
            }
            "linebreaks" => format!("<p>{}</p>", s.replace("\n\n", "</p><p>").replace('\n', "<br/>")),
            "paragraphbreaks" => s.split("\n\n").filter(|p| !p.is_empty()).map(|p| format!("<p>{p}</p>")).collect(),
            "linebreaksbr" => s.replace('\n', "<br/>"),
            "urlencode" => url(&s, true),
            "urlencode_strict" => url(&s, false),
            "fmt" => match arg(0).as_str() {
                "{:?}" => match &x {
                    Val::S(s) => format!("{s:?}"),
                    x => x.show(),
                },
                "<{}>" => format!("<{s}>"),
                "{:>6}" => format!("{s:>6}"),
                _ => return Err(Stop::Discard("format")),
            },
            "format" => match s.as_str() {
                "{}" => arg(0),
                "{} & {}" => format!("{} & {}", arg(0), arg(1)),
                "{1}-{0}" => format!("{}-{}", arg(1), arg(0)),
                _ => return Err(Stop::Discard("format")),
            },
            "wrap" => format!("[{s}]"),
            "tag" => format!("<{a}>{s}</{a}>", a = arg(0)),
            "two" => format!("{}({s}){}", arg(0), arg(1)),
            "rev" => s.chars().rev().collect(),
            "fail" => {
                self.saw("failed");
                return Err(Stop::Err("filter failed".into()));
            }
            "failon" => match s == arg(0) {
                true => {
                    self.saw("failed");
                    return Err(Stop::Err("filter failed".into()));
                }
                false => s,
            },
            _ => return Err(Stop::Discard("filter")),
        }))
    }
}

fn url(s: &str, slash: bool) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'-' | b'.' | b'_' | b'~' => o.push(b as char),
            b'/' if slash => o.push('/'),
            b if b.is_ascii_alphanumeric() => o.push(b as char),
            b => o.push_str(&format!("%{b:02X}")),
        }
    }
    o
}

fn binop(op: &str, a: Val, b: Val) -> Res<Val> {
    use std::cmp::Ordering::*;
    let cmp = |o: std::cmp::Ordering| match op {
        "==" => Some(o == Equal),
        "!=" => Some(o != Equal),
        "<" => Some(o == Less),
        "<=" => Some(o != Greater),
        ">" => Some(o == Greater),
        ">=" => Some(o != Less),
        _ => None,
    };
    let over = Stop::Discard("overflow");
    Ok(match (a, b) {
        (Val::I(a), Val::I(b)) => {
            if let Some(r) = cmp(a.cmp(&b)) {
                return Ok(Val::B(r));
            }
            Val::I(
                match op {
                    "+" => a.checked_add(b),
                    "-" => a.checked_sub(b),
                    "*" => a.checked_mul(b),
                    "/" => a.checked_div(b),
                    "%" => a.checked_rem(b),
                    "|" => Some(a | b),
                    "&" => Some(a & b),
                    "^" => Some(a ^ b),
                    "<<" if (0..64).contains(&b) => a.checked_mul(1i64.checked_shl(b as u32).filter(|_| b < 62).ok_or(Stop::Discard("overflow"))?),
                    ">>" if (0..64).contains(&b) => Some(a >> b),
                    _ => None,
                }
                .ok_or(over)?,
            )
        }
        (Val::U(a), Val::U(b)) => {
            if let Some(r) = cmp(a.cmp(&b)) {
                return Ok(Val::B(r));
            }
            Val::U(
                match op {
                    "+" => a.checked_add(b),
                    "-" => a.checked_sub(b),
                    "*" => a.checked_mul(b),
                    "/" => a.checked_div(b),
                    "%" => a.checked_rem(b),
                    _ => None,
                }
                .ok_or(over)?,
            )
        }
        (Val::B(a), Val::B(b)) => match op {
            "&&" => Val::B(a && b),
            "||" => Val::B(a || b),
            "|" => Val::B(a | b),
            "&" => Val::B(a & b),
            "^" => Val::B(a ^ b),
            _ => Val::B(cmp(a.cmp(&b)).ok_or(over)?),
        },
        (Val::S(a), Val::S(b)) => Val::B(cmp(a.cmp(&b)).ok_or(over)?),
        (Val::C(a), Val::C(b)) => Val::B(cmp(a.cmp(&b)).ok_or(over)?),
        _ => return Err(Stop::Discard("operator")),
    })
}

/// Matches a value and collects the bindings.
pub fn matches(p: &Pat, v: &Val, binds: &mut Vec<(String, Val)>) -> bool {
    match (p, v) {
        (Pat::Wild, _) => true,
        (Pat::Name(n), v) => {
            binds.push((n.clone(), v.clone()));
            true
        }
        (Pat::Lit(x, _), v) => x == v,
        (Pat::Tup(ps), Val::T(vs)) => ps.len() == vs.len() && ps.iter().zip(vs).all(|(p, v)| matches(p, v, binds)),
        (Pat::Some(p), Val::O(Some(x))) => matches(p, &Val::I(*x), binds),
        (Pat::None, Val::O(None)) => true,
        (Pat::EA, Val::E(Ev::A)) => true,
        (Pat::EB(p), Val::E(Ev::B(x))) => matches(p, &Val::I(*x), binds),
        (Pat::EC(x, y, _), Val::E(Ev::C(a, b))) => matches(x, &Val::I(*a), binds) && matches(y, &Val::S(b.clone()), binds),
        (Pat::P(x, y), Val::P(a, b)) => matches(x, &Val::I(*a), binds) && matches(y, &Val::S(b.clone()), binds),
        (Pat::Or(ps), v) => ps.iter().any(|p| {
            let mut b = vec![];
            let hit = matches(p, v, &mut b);
            if hit {
                binds.extend(b);
            }
            hit
        }),
        _ => false,
    }
}

/// What serde_json prints, without characters that mean something in HTML.
fn json(x: &Val) -> Option<String> {
    let v = match x {
        Val::I(x) => serde_json::json!(x),
        Val::U(x) => serde_json::json!(x),
        Val::B(x) => serde_json::json!(x),
        Val::C(x) => serde_json::json!(x),
        Val::S(x) => serde_json::json!(x),
        Val::L(xs) => {
            let v: Option<Vec<String>> = xs.iter().map(json).collect();
            return Some(match v? {
                v if v.is_empty() => "[]".into(),
                v => format!("[\n  {}\n]", v.join(",\n  ")),
            });
        }
        _ => return None,
    };
    let s = v.to_string();
    Some(['<', '>', '&', '\''].iter().fold(s, |s, c| s.replace(*c, &format!("\\u{:04x}", *c as u32))))
}
