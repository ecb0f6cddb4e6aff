//! A plan is one complete simulated execution: documents, stored files, client
//! histories, faults, nested parses, thread switches and environment. Together
//! with the code under test it determines everything that happens. The replay
//! file of a violation is a plan.


use crate::json::{J, Js};
use std::collections::BTreeSet;

/// Text of a document or stored file, in blocks of lines (the unit that the
/// minimiser drops).
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Text {
    pub chunks: Vec<Vec<String>>,
    /// 0: LF, 1: CRLF, 2: mixed, 3: nothing, 4: a space.
    pub eol: u8,
    /// No line terminator after the last line.
    pub open: bool,
}
js_struct!(Text { chunks, eol, open });

impl Text {
    pub fn render(&self) -> String {
        let mut out = String::new();
        let mut n = 0usize;
        for l in self.chunks.iter().flatten() {
            if n > 0 {
                out.push_str(self.term(n - 1));
            }
            out.push_str(l);
            n += 1;
        }
        if n > 0 && !self.open {
            out.push_str(self.term(n - 1));
        }
        out
    }
    fn term(&self, i: usize) -> &'static str {
        match self.eol {
            0 => "\n",
            1 => "\r\n",
            3 => "",
            4 => " ",
            _ => {
                if i % 3 == 1 {
                    "\r\n"
                } else {
                    "\n"
                }
            }
        }
    }
    pub fn lines(&self) -> impl Iterator<Item = &String> {
        self.chunks.iter().flatten()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FileSpec {
    pub name: String,
    pub text: Text,
    /// Earlier content, returned by a stale read.
    pub old: Text,
}
js_struct!(FileSpec { name, text, old });

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    Bool(bool),
}
impl Js for Val {
    fn to(&self) -> J {
        match self {
            Val::Str(s) => J::Str(s.clone()),
            Val::Bool(b) => J::Bool(*b),
        }
    }
    fn read(j: &J) -> Option<Self> {
        match j {
            J::Str(s) => Some(Val::Str(s.clone())),
            J::Bool(b) => Some(Val::Bool(*b)),
            _ => None,
        }
    }
}

/// Where a document may modify an attribute.
pub const ANYWHERE: u8 = 0;
pub const API_ONLY: u8 = 1;
pub const API_OR_HEADER: u8 = 2;
pub const API_OR_BODY: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub name: String,
    pub val: Val,
    pub ctx: u8,
}
js_struct!(Attr { name, val, ctx });

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Cfg {
    pub attrs: Vec<Attr>,
    pub primary: Option<String>,
    pub handler: bool,
    /// 0: the library's own default, 1: recording renderer around the HTML renderer.
    pub renderer: u8,
}
js_struct!(Cfg { attrs, primary, handler, renderer });

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Missing,
    Torn,
    Stale,
    Swap,
    Flip,
    DupLine,
    LoseLine,
    SwapLines,
    Empty,
    Crlf,
    Cycle,
    Bom,
    Panic,
    Stall,
}
pub const KINDS: &[(Kind, &str)] = &[
    (Kind::Missing, "missing"),
    (Kind::Torn, "torn"),
    (Kind::Stale, "stale"),
    (Kind::Swap, "swapped-file"),
    (Kind::Flip, "flipped-char"),
    (Kind::DupLine, "duplicated-line"),
    (Kind::LoseLine, "lost-line"),
    (Kind::SwapLines, "swapped-lines"),
    (Kind::Empty, "empty"),
    (Kind::Crlf, "crlf"),
    (Kind::Cycle, "cycle"),
    (Kind::Bom, "bom"),
    (Kind::Panic, "panic"),
    (Kind::Stall, "stall"),
];
impl Kind {
    pub fn name(&self) -> &'static str {
        KINDS.iter().find(|(k, _)| k == self).map_or("?", |x| x.1)
    }
}
impl Js for Kind {
    fn to(&self) -> J {
        J::Str(self.name().to_string())
    }
    fn read(j: &J) -> Option<Self> {
        KINDS.iter().find(|(_, n)| *n == j.str()).map(|x| x.0)
    }
}

pub const INC: u8 = 0;
pub const REN: u8 = 1;

/// What happens at the nth call (0-based) of a callback during one parse.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub site: u8,
    pub nth: usize,
    pub kind: Kind,
    pub arg: u64,
}
js_struct!(Fault { site, nth, kind, arg });

/// A parse started inside the nth call of a callback.
#[derive(Clone, Debug, PartialEq)]
pub struct Nest {
    pub site: u8,
    pub nth: usize,
    /// With a parser of its own rather than a clone of the one it is given.
    pub own: bool,
    pub parse: ParseOp,
}
js_struct!(Nest { site, nth, own, parse });

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ParseOp {
    pub doc: Text,
    pub faults: Vec<Fault>,
    pub nests: Vec<Nest>,
}
js_struct!(ParseOp { doc, faults, nests });

/// One step of a client history. `p` and `q` are parser slots.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New { p: usize },
    Parse { p: usize, parse: ParseOp },
    Set { p: usize, attr: Attr },
    Clone { p: usize, q: usize },
    Drop { p: usize },
}
impl Js for Op {
    fn to(&self) -> J {
        let o = |v: Vec<(&str, J)>| J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect());
        match self {
            Op::New { p } => o(vec![("op", "new".to_string().to()), ("p", p.to())]),
            Op::Parse { p, parse } => {
                o(vec![("op", "parse".to_string().to()), ("p", p.to()), ("parse", parse.to())])
            }
            Op::Set { p, attr } => {
                o(vec![("op", "set".to_string().to()), ("p", p.to()), ("attr", attr.to())])
            }
            Op::Clone { p, q } => {
                o(vec![("op", "clone".to_string().to()), ("p", p.to()), ("q", q.to())])
            }
            Op::Drop { p } => o(vec![("op", "drop".to_string().to()), ("p", p.to())]),
        }
    }
    fn read(j: &J) -> Option<Self> {
        let p = usize::read(j.get("p"))?;
        Some(match j.get("op").str() {
            "new" => Op::New { p },
            "parse" => Op::Parse { p, parse: Js::read(j.get("parse"))? },
            "set" => Op::Set { p, attr: Js::read(j.get("attr"))? },
            "clone" => Op::Clone { p, q: Js::read(j.get("q"))? },
            "drop" => Op::Drop { p },
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Client {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}
js_struct!(Client { cfg, ops });

/// The process around the library.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Env {
    pub hash_seed: u64,
    /// 0: plain heap. Otherwise sizes are padded and memory is poisoned.
    pub heap_seed: u64,
    /// Seed of the order in which attributes are configured (0: as listed).
    pub attr_order: u64,
    /// Library statics not yet initialised when the run starts.
    pub cold: bool,
    /// Number of unrelated parses made before, on other parsers.
    pub warmups: usize,
    /// Simulated start of the wall clock, in seconds.
    pub clock: u64,
    /// Run clients on the main thread of the process (0) or a spawned one (1).
    pub thread: u8,
}
js_struct!(Env { hash_seed, heap_seed, attr_order, cold, warmups, clock, thread });

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub class: String,
    pub env: Env,
    pub files: Vec<FileSpec>,
    pub clients: Vec<Client>,
    /// Thread switches: (scheduler step, which runnable thread next).
    pub switches: Vec<(u64, u64)>,
    /// Other environments in which the same plan must give the same result.
    pub envs: Vec<Env>,
    /// Known findings only: the include targets that should be requested.
    pub expect: Option<Vec<String>>,
    /// Further attributes to observe.
    pub names: Vec<String>,
    /// Reads per parse after which storage finds nothing more.
    pub reads: usize,
}
js_struct!(Plan { prop, seed, class, env, files, clients, switches, envs, expect, names, reads });

impl ParseOp {
    /// The main document as handed to the parser.
    pub fn main(&self) -> String {
        let mut s = self.doc.render();
        for f in &self.faults {
            if f.site == 2 {
                s = crate::storage::damage(&s, f.kind, f.arg);
            }
        }
        s
    }
}

impl Plan {
    pub fn each_parse(&self, f: &mut dyn FnMut(&ParseOp)) {
        fn go(p: &ParseOp, f: &mut dyn FnMut(&ParseOp)) {
            f(p);
            for n in &p.nests {
                go(&n.parse, f);
            }
        }
        for c in &self.clients {
            for o in &c.ops {
                if let Op::Parse { parse, .. } = o {
                    go(parse, f);
                }
            }
        }
    }

    pub fn each_text(&mut self, f: &mut dyn FnMut(&mut Text)) {
        fn go(p: &mut ParseOp, f: &mut dyn FnMut(&mut Text)) {
            f(&mut p.doc);
            for n in &mut p.nests {
                go(&mut n.parse, f);
            }
        }
        for x in &mut self.files {
            f(&mut x.text);
            f(&mut x.old);
        }
        for c in &mut self.clients {
            for o in &mut c.ops {
                if let Op::Parse { parse, .. } = o {
                    go(parse, f);
                }
            }
        }
    }

    pub fn texts(&self) -> Vec<&Text> {
        fn nest<'a>(p: &'a ParseOp, out: &mut Vec<&'a Text>) {
            out.push(&p.doc);
            for n in &p.nests {
                nest(&n.parse, out);
            }
        }
        let mut out = vec![];
        for f in &self.files {
            out.push(&f.text);
            out.push(&f.old);
        }
        for c in &self.clients {
            for o in &c.ops {
                if let Op::Parse { parse, .. } = o {
                    nest(parse, &mut out);
                }
            }
        }
        out
    }

    /// Names of all attributes that the plan could touch, in a fixed order.
    pub fn universe(&self) -> Vec<String> {
        let mut set: BTreeSet<String> = BUILT_IN.iter().map(|(n, _, _)| n.to_string()).collect();
        for n in IMPLIED {
            set.insert(n.to_string());
        }
        let mut add = |n: &str| {
            if n.len() <= 40 {
                set.insert(remap(n));
            }
        };
        for n in &self.names {
            add(n);
        }
        if self.prop == "C15" && self.seed % 4 != 3 {
            // (Longer documents have more names. What they are asked about is the same.)
            return set.into_iter().collect();
        }
        let mut lines: Vec<String> = vec![];
        let mut flips: Vec<u64> = vec![];
        self.each_parse(&mut |p| {
            for f in &p.faults {
                if f.kind == Kind::Flip {
                    flips.push(f.arg);
                    if f.site == 2 {
                        lines.push(p.main());
                    }
                }
            }
        });
        // A flipped character can make another name.
        for a in flips {
            for f in &self.files {
                lines.push(crate::storage::damage(&f.text.render(), Kind::Flip, a));
            }
        }
        for t in self.texts() {
            lines.extend(t.lines().cloned());
        }
        for t in lines {
            for l in t.split('\n') {
                if let Some(r) = l.strip_prefix(':') {
                    let r = r.strip_prefix('!').unwrap_or(r);
                    let n: String = r.chars().take_while(|c| name_char(*c)).collect();
                    if !n.is_empty() {
                        add(&n);
                    }
                }
                let mut rest = l;
                while let Some(i) = rest.find('{') {
                    rest = &rest[i + 1..];
                    if let Some(e) = rest.find('}')
                        && e > 0
                        && rest[..e].chars().all(name_char)
                    {
                        add(&rest[..e]);
                    }
                }
            }
        }
        for c in &self.clients {
            for a in &c.cfg.attrs {
                add(&a.name);
            }
            for o in &c.ops {
                if let Op::Set { attr, .. } = o {
                    add(&attr.name);
                }
            }
        }
        set.into_iter().collect()
    }
}

pub fn name_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '-'
}

/// The name under which the library keeps an attribute that a document assigns.
pub fn remap(n: &str) -> String {
    let n = n.to_lowercase();
    if n == "hardbreaks" { "hardbreaks-option".to_string() } else { n }
}

/// Documented built-in attributes: name, initial value (None: unset, Some(None):
/// set without value), restriction.
#[allow(clippy::type_complexity)]
pub const BUILT_IN: &[(&str, Option<Option<&str>>, u8)] = &[
    ("empty", Some(Some("")), API_ONLY),
    ("sp", Some(Some(" ")), API_ONLY),
    ("deg", Some(Some("&#176;")), API_ONLY),
    ("plus", Some(Some("&#43;")), API_ONLY),
    ("max-attribute-value-size", Some(Some("4096")), API_ONLY),
    ("toc", None, API_OR_HEADER),
    ("sectids", Some(None), ANYWHERE),
    ("sectnums", None, ANYWHERE),
    ("sectnumlevels", Some(Some("3")), API_OR_HEADER),
    ("idprefix", Some(Some("_")), ANYWHERE),
    ("idseparator", Some(Some("_")), ANYWHERE),
    ("example-caption", Some(None), ANYWHERE),
    ("iconsdir", Some(None), ANYWHERE),
];

/// Value of a built-in attribute that is set without a value.
pub fn set_default(name: &str) -> Option<&'static str> {
    match name {
        "example-caption" => Some("Example"),
        "iconsdir" => Some("./images/icons"),
        "sectnums" => Some("all"),
        "toc" => Some("auto"),
        _ => None,
    }
}

/// Attributes assigned from the title, author and revision lines.
pub const IMPLIED: &[&str] = &[
    "doctitle",
    "author",
    "authorinitials",
    "firstname",
    "middlename",
    "lastname",
    "email",
    "author_2",
    "authorinitials_2",
    "firstname_2",
    "middlename_2",
    "lastname_2",
    "email_2",
    "revnumber",
    "revdate",
    "revremark",
    "hardbreaks-option",
    "icontype",
    "imagesdir",
];
