//! Trees of template files.

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    A,
    B(i64),
    C(i64, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i64),
    U(usize),
    B(bool),
    C(char),
    S(String),
    O(Option<i64>),
    L(Vec<Val>),
    T(Vec<Val>),
    P(i64, String),
    E(Ev),
    Unit,
}

impl Val {
    /// What `Display` prints.
    pub fn show(&self) -> String {
        match self {
            Val::I(x) => x.to_string(),
            Val::U(x) => x.to_string(),
            Val::B(x) => x.to_string(),
            Val::C(x) => x.to_string(),
            Val::S(x) => x.clone(),
            _ => unreachable!("{self:?} is not displayable"),
        }
    }
}

/// Whitespace control at one side of a tag: `0` (none), `-`, `+` or `~`.
pub type Wc = u8;

/// Controls at the left and right delimiter of a tag.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Tag {
    pub l: Wc,
    pub r: Wc,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    /// value and source
    Lit(Val, String),
    Var(String),
    /// `self.name`
    Slf(String),
    Attr(Box<Ex>, String),
    Idx(Box<Ex>, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Un(&'static str, Box<Ex>),
    Call(&'static str, Vec<Ex>),
    Meth(Box<Ex>, &'static str, Vec<Ex>),
    Filt(Box<Ex>, String, Vec<Ex>),
    Range(Box<Ex>, Box<Ex>, bool),
    Arr(Vec<Ex>),
    Tup(Vec<Ex>),
    Group(Box<Ex>),
    /// loop.index, …
    Loop(&'static str),
    Cycle(Vec<Ex>),
    Try(Box<Ex>),
    /// `format!` with a format string whose `{}` stand for the arguments
    Format(&'static str, Vec<Ex>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Wild,
    Name(String),
    Lit(Val, String),
    Tup(Vec<Pat>),
    Some(Box<Pat>),
    None,
    EA,
    EB(Box<Pat>),
    /// fields x and y, written in this order or swapped
    EC(Box<Pat>, Box<Pat>, bool),
    /// fields n and s of P
    P(Box<Pat>, Box<Pat>),
    Or(Vec<Pat>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cond {
    pub tag: Tag,
    /// None: `else`
    pub test: Option<(Option<Pat>, Ex)>,
    pub body: Vec<Nd>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    /// index into the texts of the project
    Text(usize),
    Expr(Tag, Ex),
    Comment(Tag, String),
    /// the content is a text of the project
    Raw(Tag, Option<usize>, Tag),
    If(Vec<Cond>, Tag),
    For { tag: Tag, pat: Pat, iter: Ex, cond: Option<Ex>, body: Vec<Nd>, els: Option<(Tag, Vec<Nd>)>, end: Tag },
    /// `else` arms have no pattern
    Match { tag: Tag, ex: Ex, gap: &'static str, arms: Vec<(Tag, Option<Pat>, Vec<Nd>)>, end: Tag },
    Let(Tag, Pat, Option<Ex>),
    Block { tag: Tag, name: String, body: Vec<Nd>, end: Tag },
    Super(Tag),
    /// written path and the file it means
    Include(Tag, String, usize),
    Import(Tag, String, String, usize),
    Extends(String, usize),
    Macro { tag: Tag, name: String, params: Vec<String>, body: Vec<Nd>, end: Tag },
    Call { tag: Tag, scope: Option<String>, name: String, args: Vec<(Option<String>, Ex)> },
    Filter { tag: Tag, filters: Vec<(String, Vec<Ex>)>, body: Vec<Nd>, end: Tag },
    Break(Tag),
    Continue(Tag),
    /// source of tags that render nothing
    Src(String),
}

impl Nd {
    /// The lists of nodes directly inside.
    pub fn children(&self) -> Vec<&Vec<Nd>> {
        match self {
            Nd::If(cs, _) => cs.iter().map(|c| &c.body).collect(),
            Nd::For { body, els, .. } => std::iter::once(body).chain(els.iter().map(|e| &e.1)).collect(),
            Nd::Match { arms, .. } => arms.iter().map(|a| &a.2).collect(),
            Nd::Block { body, .. } | Nd::Macro { body, .. } | Nd::Filter { body, .. } => vec![body],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct File {
    /// relative to the template directory; empty for inline source
    pub path: String,
    pub nodes: Vec<Nd>,
}

/// Several files that belong together.
#[derive(Clone, Debug, Default)]
pub struct Project {
    pub files: Vec<File>,
    /// source of every text
    pub texts: Vec<String>,
    /// what is left of every text after whitespace control; set by the printer
    pub trimmed: Vec<String>,
}

/// Delimiters: block, expression, comment.
#[derive(Clone, Debug, PartialEq)]
pub struct Delims(pub [String; 6]);

impl Default for Delims {
    fn default() -> Self {
        Delims(["{%", "%}", "{{", "}}", "{#", "#}"].map(|s| s.to_string()))
    }
}
