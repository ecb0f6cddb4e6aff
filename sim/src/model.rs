//! Reference model, written from the documented behaviour and independent of
//! the library: attribute store with restrictions, include assembly with line
//! provenance, and the sequence of attribute states of a document.

use crate::plan::*;
use crate::storage;
use std::collections::BTreeMap;

pub const MAX_DEPTH: usize = 64;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unset,
    Set,
    Str(String),
}

/// Attribute values and restrictions in effect.
#[derive(Clone, Debug, PartialEq)]
pub struct Store {
    vals: BTreeMap<String, V>,
    ctx: BTreeMap<String, u8>,
}

impl Store {
    /// From a snapshot taken through the library's API, plus the restrictions
    /// that were configured.
    pub fn from_snapshot(snap: &str, universe: &[String], ctx: &BTreeMap<String, u8>) -> Option<Store> {
        let mut vals = BTreeMap::new();
        let mut it = snap.split('\u{1e}');
        for n in universe {
            let s = it.next()?;
            match s.chars().next()? {
                '-' => {}
                'u' => {
                    vals.insert(n.clone(), V::Unset);
                }
                's' => {
                    vals.insert(n.clone(), V::Set);
                }
                'v' => {
                    vals.insert(n.clone(), V::Str(s[1..].to_string()));
                }
                _ => return None,
            }
        }
        Some(Store { vals, ctx: ctx.clone() })
    }

    pub fn snapshot(&self, universe: &[String]) -> String {
        let mut s = String::new();
        for n in universe {
            match self.vals.get(n) {
                None => s.push('-'),
                Some(V::Unset) => s.push('u'),
                Some(V::Set) => match set_default(n) {
                    Some(d) => {
                        s.push('v');
                        s.push_str(d);
                    }
                    None => s.push('s'),
                },
                Some(V::Str(x)) => {
                    s.push('v');
                    s.push_str(x);
                }
            }
            s.push('\u{1e}');
        }
        s
    }

    pub fn to_attrs(&self) -> Vec<Attr> {
        self.vals
            .iter()
            .map(|(n, v)| Attr {
                name: n.clone(),
                val: match v {
                    V::Unset => Val::Bool(false),
                    V::Set => Val::Bool(true),
                    V::Str(s) => Val::Str(s.clone()),
                },
                ctx: self.ctx_of(n),
            })
            .collect()
    }

    pub fn ctx_of(&self, n: &str) -> u8 {
        if let Some(c) = self.ctx.get(n) {
            return *c;
        }
        // A restriction only exists with an attribute.
        BUILT_IN.iter().find(|b| b.0 == n).map_or(ANYWHERE, |b| b.2)
    }

    pub fn permits(&self, n: &str, header: bool) -> bool {
        match self.ctx_of(n) {
            ANYWHERE => true,
            API_OR_HEADER => header,
            API_OR_BODY => !header,
            _ => false,
        }
    }

    /// Assigns if permitted; tells whether it was.
    pub fn assign(&mut self, n: &str, v: V, header: bool) -> bool {
        if !self.permits(n, header) {
            return false;
        }
        self.vals.insert(n.to_string(), v);
        true
    }

    /// Replaces `{name}` references.
    pub fn subst(&self, s: &str) -> String {
        let b: Vec<char> = s.chars().collect();
        let mut out = String::new();
        let mut i = 0;
        while i < b.len() {
            let esc = b[i] == '\\' && i + 1 < b.len() && b[i + 1] == '{';
            let at = if esc { i + 1 } else { i };
            if b[at] == '{'
                && let Some(e) = reference_end(&b, at)
            {
                let name: String = b[at + 1..e].iter().collect();
                match self.lookup(&name) {
                    None => out.extend(&b[i..=e]),
                    Some(_) if esc => out.extend(&b[at..=e]),
                    Some(V::Str(v)) => out.push_str(&v),
                    Some(_) => {}
                }
                i = e + 1;
                continue;
            }
            out.push(b[i]);
            i += 1;
        }
        out
    }

    fn lookup(&self, n: &str) -> Option<V> {
        match self.vals.get(n)? {
            V::Set => Some(set_default(n).map_or(V::Set, |d| V::Str(d.to_string()))),
            v => Some(v.clone()),
        }
    }
}

/// Index of the brace that ends a reference beginning at `at`.
fn reference_end(b: &[char], at: usize) -> Option<usize> {
    let mut j = at + 1;
    if !matches!(b.get(j), Some(c) if c.is_ascii_alphanumeric() || *c == '_') {
        return None;
    }
    while matches!(b.get(j), Some(c) if name_char(*c)) {
        j += 1;
    }
    if b.get(j) == Some(&'}') { Some(j) } else { None }
}

pub fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// A parsed attribute entry.
#[derive(Clone, Debug)]
pub struct Entry {
    pub name: String,
    /// None: unset, Some(None): set without value, Some(Some(text)) otherwise.
    pub value: Option<Option<String>>,
    /// Number of source lines it takes.
    pub lines: usize,
}

impl Entry {
    pub fn eval(&self, st: &Store) -> V {
        match &self.value {
            None => V::Unset,
            Some(None) => V::Set,
            Some(Some(s)) => {
                let mut v = st.subst(&escape(s));
                // Values are limited in size.
                if let Some(V::Str(max)) = st.lookup("max-attribute-value-size")
                    && let Ok(max) = max.parse::<usize>()
                {
                    let mut n = v.len().min(max);
                    while !v.is_char_boundary(n) {
                        n -= 1;
                    }
                    v.truncate(n);
                }
                V::Str(v)
            }
        }
    }
}

fn trim_spaces_end(s: &str) -> &str {
    s.trim_end_matches(' ')
}

/// Recognizes an attribute entry that begins at line `i` (lines without their
/// terminators; `raw` with carriage returns).
pub fn entry_at(lines: &[&str], i: usize) -> Option<Entry> {
    // Explicit continuation.
    let mut n = 1;
    while i + n <= lines.len() {
        let l = trim_spaces_end(lines[i + n - 1].strip_suffix('\r').unwrap_or(lines[i + n - 1]));
        if l.ends_with('\\') && i + n < lines.len() {
            n += 1;
        } else {
            break;
        }
    }
    let mut whole = String::new();
    for k in 0..n {
        if k > 0 {
            whole.push('\n');
        }
        whole.push_str(lines[i + k]);
    }
    let text = trim_spaces_end(whole.strip_suffix('\r').unwrap_or(&whole));
    let r = text.strip_prefix(':')?;
    let (mut unset, r) = match r.strip_prefix('!') {
        Some(r) => (true, r),
        None => (false, r),
    };
    if !r.chars().next().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_') {
        return None;
    }
    let e = r.find(|c: char| !name_char(c)).unwrap_or(r.len());
    let raw_name = r[..e].to_string();
    let mut r = &r[e..];
    if !unset && r.starts_with('!') {
        unset = true;
        r = &r[1..];
    }
    let r = r.strip_prefix(':')?;
    let value = if unset {
        None
    } else if r.is_empty() {
        Some(None)
    } else {
        let r = r.trim_start_matches([' ', '\t']);
        Some(Some(join_continued(r)))
    };
    Some(Entry { name: remap(&raw_name), value, lines: n })
}

fn join_continued(s: &str) -> String {
    if !s.contains('\n') {
        return s.to_string();
    }
    let lines: Vec<&str> = s.lines().collect();
    let last = lines.len() - 1;
    let mut out = String::new();
    for (k, l) in lines.iter().enumerate() {
        let l = if k > 0 { l.trim_start_matches(' ') } else { l };
        let l = l
            .trim_start_matches('\r')
            .trim_end_matches(' ')
            .trim_end_matches('\\')
            .trim_end_matches(' ');
        if l.ends_with('+') {
            out.push_str(l.trim_end_matches('+').trim_end_matches(' '));
            out.push('\n');
        } else if k < last {
            out.push_str(l);
            out.push(' ');
        } else {
            out.push_str(l);
        }
    }
    out
}

/// The target and attribute list of an include directive line.
pub fn directive(line: &str) -> Option<(&str, &str)> {
    let r = line.strip_prefix("include::")?;
    let open = r.find('[')?;
    let target = &r[..open];
    let first = target.chars().next()?;
    let last = target.chars().last()?;
    if first.is_whitespace() || last.is_whitespace() {
        return None;
    }
    let list = r[open + 1..].strip_suffix(']')?;
    if list.starts_with(']') {
        return None;
    }
    Some((target, list))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub text: String,
    pub file: Option<String>,
    pub line: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Request {
    pub source: Option<String>,
    pub target: String,
    pub attrlist: String,
    pub attrs: String,
}

pub struct Assembly {
    pub lines: Vec<Line>,
    pub requests: Vec<Request>,
    /// Deepest nesting reached.
    pub depth: usize,
    pub unresolved: usize,
    pub entries: usize,
    pub cut: usize,
    /// A file ends in a line that would be continued.
    pub continued: bool,
    /// Attribute values when all is read.
    pub last: String,
}

struct Assembler<'a> {
    files: &'a [FileSpec],
    faults: &'a [Fault],
    reads: usize,
    handler: bool,
    universe: &'a [String],
    st: Store,
    header: bool,
    /// Lines of the header: the title, then the author and revision lines.
    title_lines: usize,
    entry_ok: bool,
    out: Assembly,
}

/// Splits into lines as an editor would; the last line may be unterminated.
pub fn split_lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v
}

/// What the text of the document should be, where each line comes from, and
/// what storage should be asked.
pub fn assemble(
    files: &[FileSpec],
    faults: &[Fault],
    reads: usize,
    cfg: &Cfg,
    universe: &[String],
    st: Store,
    main: &str,
) -> Assembly {
    let mut a = Assembler {
        files,
        faults,
        reads,
        handler: cfg.handler,
        universe,
        st,
        header: true,
        title_lines: 0,
        entry_ok: true,
        out: Assembly { lines: vec![], requests: vec![], depth: 0, unresolved: 0, entries: 0, cut: 0, continued: false, last: String::new() },
    };
    a.file(main, cfg.primary.as_deref(), 1);
    a.out.last = a.st.snapshot(universe);
    a.out
}

impl Assembler<'_> {
    /// A line that is not an entry decides whether the next one can be.
    fn passed(&mut self, l: &str) {
        let l = trim_spaces_end(l);
        if self.header {
            let stays = match self.title_lines {
                _ if l.starts_with("//") && !l.starts_with("///") => return,
                0 if l.is_empty() => return,
                0 => l.starts_with("= "),
                n => n < 3 && !l.is_empty(),
            };
            if stays {
                self.title_lines += 1;
                return;
            }
            self.header = false;
        }
        if l.is_empty() {
            self.entry_ok = true;
        } else if l.chars().any(|c| c != ' ' && c != '\t') {
            self.entry_ok = false;
        }
    }

    fn emit(&mut self, text: &str, file: Option<&str>, line: usize) {
        self.out.lines.push(Line {
            text: text.to_string(),
            file: file.map(|s| s.to_string()),
            line,
        });
    }

    fn file(&mut self, text: &str, name: Option<&str>, depth: usize) {
        self.out.depth = self.out.depth.max(depth);
        let lines = split_lines(text);
        self.out.continued |= depth > 1 && lines.last().is_some_and(|l| l.trim_end().ends_with('\\'));
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].strip_suffix('\r').unwrap_or(lines[i]);
            if self.entry_ok
                && l.starts_with(':')
                && (self.header || l.ends_with(':') || l.contains(": "))
                && let Some(e) = entry_at(&lines, i)
            {
                let v = e.eval(&self.st);
                self.st.assign(&e.name, v, self.header);
                self.out.entries += 1;
                for k in 0..e.lines {
                    self.emit(lines[i + k], name, i + k + 1);
                }
                i += e.lines;
                continue;
            }
            if let Some((target, list)) = directive(l) {
                let target = self.st.subst(target);
                let mut answer = None;
                if self.handler && depth <= MAX_DEPTH {
                    let nth = self.out.requests.len();
                    self.out.requests.push(Request {
                        source: name.map(|s| s.to_string()),
                        target: target.clone(),
                        attrlist: list.to_string(),
                        attrs: self.st.snapshot(self.universe),
                    });
                    answer = storage::read(self.files, self.faults, self.reads, nth, name, &target).text;
                } else if self.handler {
                    self.out.cut += 1;
                }
                match answer {
                    Some(t) => self.file(&t, Some(&target), depth + 1),
                    None => {
                        self.out.unresolved += 1;
                        let t = format!("Unresolved directive in {} - {l}", name.unwrap_or("(root file)"));
                        self.passed(&t);
                        self.emit(&t, name, i + 1);
                    }
                }
            } else {
                self.passed(l);
                self.emit(l, name, i + 1);
            }
            i += 1;
        }
    }
}

// ------------------------------------------------- attribute states of a document

#[derive(Clone, Debug, PartialEq)]
pub struct Probe {
    pub kind: &'static str,
    pub text: String,
    /// Numbers of the images in it.
    pub images: Vec<String>,
    /// Attribute snapshot at this point.
    pub attrs: String,
}

pub struct Story {
    /// All states, in order (each different from the one before).
    pub states: Vec<String>,
    pub probes: Vec<Probe>,
    /// Forbidden entries: (name, line in the document, text of first line).
    pub forbidden: Vec<(String, usize, String)>,
    pub last: String,
    pub permitted: usize,
}

fn push_state(story: &mut Story, st: &Store, universe: &[String]) {
    let s = st.snapshot(universe);
    if story.states.last() != Some(&s) {
        story.states.push(s);
    }
    story.permitted += 1;
}

/// Follows a document of the structured grammar (see `gen::structured`) and
/// tells what its attributes should be at every point. `None`: the document is
/// outside that grammar.
pub fn follow(text: &str, mut st: Store, universe: &[String]) -> Option<Story> {
    let lines: Vec<&str> = split_lines(text);
    let mut story = Story {
        states: vec![st.snapshot(universe)],
        probes: vec![],
        forbidden: vec![],
        last: String::new(),
        permitted: 0,
    };
    let mut i = 0;
    while i < lines.len() && lines[i].is_empty() {
        i += 1;
    }
    // Header: present if the document begins with a title.
    if i < lines.len() && lines[i].starts_with("= ") {
        let title = st.subst(&escape(lines[i][2..].trim_start()));
        if title.is_empty() {
            return None;
        }
        story.probes.push(Probe {
            kind: "doctitle",
            text: title.clone(),
            images: vec![],
            attrs: st.snapshot(universe),
        });
        implied(&mut story, &mut st, universe, "doctitle", &title);
        i += 1;
        let mut author = false;
        let mut revision = false;
        while i < lines.len() && !lines[i].is_empty() {
            let l = lines[i];
            if l.ends_with(' ') || l.ends_with('\t') {
                return None;
            }
            if l.starts_with("// ") {
                i += 1;
            } else if l.starts_with(':') {
                let e = entry_at(&lines, i)?;
                if !(l.ends_with(':') || l.contains(": ")) {
                    return None;
                }
                if e.name == "author" {
                    // Also splits the name; only with a plain value.
                    let Some(Some(v)) = &e.value else { return None };
                    let a = simple_author(v)?;
                    if !st.permits("author", true) || a.len() > 1 {
                        return None;
                    }
                    for (n, x) in &a[0] {
                        if n != "author" {
                            implied(&mut story, &mut st, universe, n, x);
                        }
                    }
                }
                entry(&mut story, &mut st, universe, &e, true, i, l);
                i += e.lines;
            } else if !author {
                author = true;
                for (k, a) in simple_author(l)?.iter().enumerate() {
                    for (n, x) in a {
                        let n = if k == 0 { n.clone() } else { format!("{n}_{}", k + 1) };
                        implied(&mut story, &mut st, universe, &n, x);
                    }
                }
                i += 1;
            } else if !revision {
                revision = true;
                for (n, x) in simple_revision(l)? {
                    implied(&mut story, &mut st, universe, n, &x);
                }
                i += 1;
            } else {
                return None;
            }
        }
    } else if i < lines.len() && (lines[i].starts_with(':') || lines[i].starts_with("//")) {
        return None;
    }
    // Body.
    let mut open: Vec<&str> = vec![];
    let mut at_block_start = true;
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() {
            at_block_start = true;
            i += 1;
            continue;
        }
        if l.ends_with(' ') || l.ends_with('\t') || l.starts_with(' ') {
            return None;
        }
        if matches!(l, "====" | "****" | "--" | "____") {
            // Open and close alone between blank lines.
            if !at_block_start || (i + 1 < lines.len() && !lines[i + 1].is_empty()) {
                return None;
            }
            if open.last() == Some(&l) {
                open.pop();
            } else if open.contains(&l) {
                return None;
            } else {
                open.push(l);
            }
            i += 1;
            continue;
        }
        if !at_block_start {
            return None;
        }
        if l.starts_with(':') {
            let e = entry_at(&lines, i)?;
            if !(l.ends_with(':') || l.contains(": ")) {
                return None;
            }
            entry(&mut story, &mut st, universe, &e, false, i, l);
            i += e.lines;
            continue;
        }
        if l.starts_with("== ") || l.starts_with("=== ") {
            let t = l.trim_start_matches('=').trim_start();
            probe(&mut story, &st, universe, "section", t)?;
            if !open.is_empty() {
                return None;
            }
            at_block_start = false;
            i += 1;
            continue;
        }
        if let Some(t) = l.strip_prefix(".T") {
            probe(&mut story, &st, universe, "title", &format!("T{t}"))?;
            if i + 1 >= lines.len() || !lines[i + 1].starts_with('P') {
                return None;
            }
            i += 1;
            continue;
        }
        if l.starts_with("[[") && l.ends_with("]]") || l.starts_with("[.") && l.ends_with(']') {
            if i + 1 >= lines.len() || !lines[i + 1].starts_with('P') {
                return None;
            }
            i += 1;
            continue;
        }
        if l.starts_with('P') {
            while i < lines.len() && !lines[i].is_empty() {
                if !lines[i].starts_with('P') {
                    return None;
                }
                i += 1;
            }
            // (One probe per paragraph line, rendered together.)
            let para: Vec<&str> = lines[..i].iter().rev().take_while(|x| x.starts_with('P')).copied().collect();
            let t: Vec<&str> = para.into_iter().rev().map(|x| x.trim_end()).collect();
            probe(&mut story, &st, universe, "text", &t.join("\n"))?;
            continue;
        }
        if l.starts_with("Unresolved directive in ") {
            if i + 1 < lines.len() && !lines[i + 1].is_empty() {
                return None;
            }
            i += 1;
            continue;
        }
        return None;
    }
    if !open.is_empty() {
        return None;
    }
    story.last = st.snapshot(universe);
    Some(story)
}

fn implied(story: &mut Story, st: &mut Store, universe: &[String], n: &str, v: &str) {
    if st.assign(n, V::Str(v.to_string()), true) {
        push_state(story, st, universe);
    }
}

fn entry(
    story: &mut Story,
    st: &mut Store,
    universe: &[String],
    e: &Entry,
    header: bool,
    i: usize,
    line: &str,
) {
    let v = e.eval(st);
    if st.assign(&e.name, v, header) {
        push_state(story, st, universe);
    } else {
        story.forbidden.push((e.name.clone(), i + 1, line.to_string()));
    }
}

const TOKEN: &str = " /|:-_{}[]";

/// A probe text: plain words, `{name}` references, and `image:I7.png[]`.
fn probe(
    story: &mut Story,
    st: &Store,
    universe: &[String],
    kind: &'static str,
    t: &str,
) -> Option<()> {
    if !t.chars().all(|c| c.is_ascii_alphanumeric() || TOKEN.contains(c) || c == '\n' || c == '.') {
        return None;
    }
    // The only macro is an image at the end of a line, with the number of that line.
    let mut images = vec![];
    for l in t.split('\n') {
        if let Some(at) = l.find("image:") {
            let n: String = l.strip_prefix('P')?.chars().take_while(|c| c.is_ascii_digit()).collect();
            if n.is_empty() || l[at..] != format!("image:I{n}.png[]") || !l[..at].ends_with(' ') {
                return None;
            }
            images.push(n);
        }
    }
    story.probes.push(Probe { kind, text: st.subst(t), images, attrs: st.snapshot(universe) });
    Some(())
}

type Named = Vec<(String, String)>;

/// Author names of one to three plain words, with an optional address.
fn simple_author(l: &str) -> Option<Vec<Named>> {
    let mut out = vec![];
    for a in l.split("; ") {
        let (names, email) = match a.split_once(" <") {
            Some((n, e)) => (n, Some(e.strip_suffix('>')?)),
            None => (a, None),
        };
        let w: Vec<&str> = names.split(' ').collect();
        if w.is_empty() || w.len() > 3 || !w.iter().all(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_alphabetic())) {
            return None;
        }
        if let Some(e) = email
            && (e.is_empty() || !e.chars().all(|c| c.is_ascii_alphanumeric() || c == '@' || c == '.'))
        {
            return None;
        }
        let mut v: Named = vec![];
        let initials: String = w.iter().filter_map(|x| x.chars().next()).collect();
        v.push(("author".into(), names.to_string()));
        v.push(("authorinitials".into(), initials));
        v.push(("firstname".into(), w[0].to_string()));
        if w.len() == 3 {
            v.push(("middlename".into(), w[1].to_string()));
        }
        if w.len() > 1 {
            v.push(("lastname".into(), w[w.len() - 1].to_string()));
        }
        if let Some(e) = email {
            v.push(("email".into(), e.to_string()));
        }
        out.push(v);
    }
    Some(out)
}

/// `v1.2, 2024-01-02: remark` with optional parts.
fn simple_revision(l: &str) -> Option<Vec<(&'static str, String)>> {
    let (left, remark) = match l.split_once(": ") {
        Some((a, b)) => (a, Some(b)),
        None => (l, None),
    };
    let ok = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-');
    let mut v = vec![];
    let (num, date) = left.split_once(", ")?;
    let num = num.strip_prefix('v')?;
    if !ok(num) || !num.starts_with(|c: char| c.is_ascii_digit()) || !ok(date) || remark.is_some_and(|r| !ok(r)) {
        return None;
    }
    v.push(("revnumber", num.to_string()));
    v.push(("revdate", date.to_string()));
    if let Some(r) = remark {
        v.push(("revremark", r.to_string()));
    }
    Some(v)
}
