//! Seeded generation of plans: documents, storage, histories, faults, nested
//! parses and environments. Everything about a plan follows from its seed.

use crate::plan::*;
use crate::rng::{Rng, mix};

const NAMES: &[&str] = &["aa", "bb", "cc", "dd-e", "f_1", "gg"];
const FILES: &[&str] = &[
    "a.adoc", "b.adoc", "c/d.adoc", "x1.adoc", "x2.adoc", "\u{e9}\u{65e5}.adoc", "with space.adoc", "./a.adoc",
    "../up.adoc", "/abs/e.adoc", "c/../b.adoc", "c//d.adoc", "A.adoc", "http://h/x.adoc", "a.txt", "c\\d.adoc", "{aa}.adoc",
    "x%20y.adoc", "d.adoc",
];
const TARGET_VALUES: &[&str] =
    &["a", "b", "c/d", "x1", "x2", "with space", "nowhere", "./a", "../up", "/abs/e", "c/../b", "A", "{aa}", "x%20y"];
const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "x", "7", "zeta9", "Omega"];
const PLAIN_VALUES: &[&str] = &["v1", "two words", "7", "a.b", "x", "Zz9", "long value of several words", "q-r"];

pub fn plan_seed(base: u64, prop: &str, index: u64) -> u64 {
    mix(mix(base) ^ crate::rng::hash(prop.as_bytes()) ^ mix(index.wrapping_mul(0x9e37)))
}

fn s(x: &str) -> String {
    x.to_string()
}

struct G {
    r: Rng,
    id: usize,
    /// Delimiters of verbatim blocks are allowed in documents.
    verbatim: bool,
    /// The last document of a history.
    last: Option<Text>,
    /// Only documents that the model of attributes knows completely.
    plain: bool,
}

fn text(chunks: Vec<Vec<String>>) -> Text {
    Text { chunks, eol: 0, open: false }
}

impl G {
    fn name(&mut self) -> String {
        s(self.r.pick(NAMES))
    }
    fn word(&mut self) -> String {
        s(self.r.pick(WORDS))
    }
    fn words(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }
    fn next_id(&mut self) -> usize {
        self.id += 1;
        self.id
    }

    // ------------------------------------------------------------ storage documents

    /// An attribute entry, possibly of several lines.
    fn entry(&mut self, target_like: bool) -> Vec<String> {
        let n = self.name();
        let v = if target_like && self.r.chance(2, 3) {
            s(self.r.pick(TARGET_VALUES))
        } else {
            s(self.r.pick(PLAIN_VALUES))
        };
        match self.r.below(20) {
            0 => vec![format!(":{n}!:")],
            1 => vec![format!(":!{n}:")],
            2 => vec![format!(":{n}:")],
            3 => vec![format!(":{n}: {v} \\"), format!("  {}", self.word())],
            4 => vec![format!(":{n}: {v} \\"), format!("{} \\", self.word()), self.word()],
            5 => vec![format!(":{n}: {v} + \\"), self.word()],
            6 => vec![format!(":{n}: \\"), v],
            7 => vec![format!(":{n}: {{{}}}", self.name())],
            8 => vec![format!(":{n}: {}{{{}}}{}", self.word(), self.name(), self.word())],
            9 => vec![format!(":{}: {v}", n.to_uppercase())],
            10 => vec![format!(":{n}: a<b>&{v}")],
            11 => vec![format!(":{n}:   {v}")],
            12 => vec![format!(":{n}: \\{{{}}}", self.name())],
            _ => vec![format!(":{n}: {v}")],
        }
    }

    fn target(&mut self, files: &[String]) -> String {
        match self.r.below(12) {
            0 | 1 => format!("{{{}}}.adoc", self.name()),
            2 => format!("{{{}}}", self.name()),
            3 => s("missing.adoc"),
            4 => s(self.r.pick(&["../up.adoc", "http://h/x.adoc", "./a.adoc", "c//d.adoc", "c/{aa}.adoc", "./{bb}.adoc", "{aa}{bb}.adoc", "a:b", "{nosuch}.adoc", "x{", "\\{aa}.adoc", "\u{65e5}"])),
            _ if !files.is_empty() => files[self.r.below(files.len())].clone(),
            _ => s("a.adoc"),
        }
    }

    fn directive(&mut self, files: &[String]) -> String {
        let t = self.target(files);
        let list = match self.r.below(10) {
            0 => "leveloffset=1",
            1 => "x",
            2 => "tag=abc,indent=0",
            3 => "lines=1..3",
            4 => "opts=optional",
            _ => "",
        };
        format!("include::{t}[{list}]")
    }

    fn odd_line(&mut self, files: &[String]) -> String {
        let d = self.directive(files);
        match self.r.below(16) {
            0 => format!("\\{d}"),
            1 => format!("{d} "),
            2 => format!(" {d}"),
            3 => s("include::[]"),
            4 => s("include:: x.adoc[]"),
            5 => s("include::x.adoc []"),
            6 => s("include::x.adoc"),
            7 => s("include::x.adoc[]]"),
            8 => s("ifdef::aa[]"),
            9 => s("endif::[]"),
            10 => s("if only"),
            11 => s(self.r.pick(&["// comment", "// comment", "// x ///", "//", "///", "//x"])),
            12 => s("text with trailing blanks   "),
            13 => s("\u{a0}odd \u{1d11e} \u{2028} text"),
            14 => format!("{d}{d}"),
            _ => s("include"),
        }
    }

    fn storage_text(&mut self, files: &[String], main: bool) -> Text {
        let n = self.r.range(0, if main { 10 } else { 7 });
        let mut chunks: Vec<Vec<String>> = vec![];
        if main && self.r.chance(1, 2) {
            let mut h = vec![];
            if self.r.chance(3, 4) {
                h.push(format!("= {}", self.words(1, 3)));
            }
            for _ in 0..self.r.below(4) {
                if self.r.chance(1, 4) {
                    h.push(self.directive(files));
                } else {
                    h.extend(self.entry(true));
                }
            }
            if self.r.chance(4, 5) {
                h.push(s(self.r.pick(&["", "", "", "  "])));
            }
            for _ in 0..self.r.below(4) * self.r.below(2) {
                let l = match self.r.below(6) {
                    0 => s(self.r.pick(&["// comment", "// comment", "// x ///", "//", "///", "//x"])),
                    1 => s(self.r.pick(&["", " ", "\t"])),
                    2 => format!(":{}:{}", self.name(), self.word()),
                    3 => self.entry(true).remove(0),
                    _ => self.words(1, 2),
                };
                let at = self.r.range(0, h.len());
                h.insert(at, l);
            }
            chunks.push(h);
        }
        for _ in 0..n {
            let c = match self.r.below(19) {
                18 => {
                    let l = s(self.r.pick(&[" ", "   ", "\t", " \t"]));
                    let mut v = vec![l];
                    if self.r.chance(1, 2) {
                        v.extend(self.entry(true));
                    }
                    if self.r.chance(1, 2) {
                        v.insert(0, self.words(1, 2));
                    }
                    v
                }
                0..=5 => vec![self.directive(files)],
                6 => {
                    let a = self.directive(files);
                    let b = self.directive(files);
                    vec![a, b]
                }
                7 | 8 => {
                    let mut v = vec![String::new()];
                    for _ in 0..self.r.range(1, 3) {
                        v.extend(self.entry(true));
                    }
                    if self.r.chance(2, 3) {
                        v.push(String::new());
                    }
                    v
                }
                9 | 10 => vec![String::new()],
                11 => vec![self.odd_line(files)],
                12 => vec![format!("== {}", self.words(1, 2)), String::new()],
                13 if self.verbatim => vec![s(self.r.pick(&["----", "====", "....", "////", "++++", "--"]))],
                14 => {
                    // Entries that are not where an entry can be.
                    let mut v = vec![self.words(1, 3)];
                    v.extend(self.entry(true));
                    if !self.verbatim {
                        v.truncate(1);
                    }
                    v
                }
                15 => {
                    let d = self.directive(files);
                    vec![String::new(), d, String::new()]
                }
                _ => {
                    let k = self.r.range(1, 3);
                    (0..k).map(|_| self.words(1, 4)).collect()
                }
            };
            chunks.push(c);
        }
        let eol = if self.r.chance(1, 6) { 1 + self.r.below(2) as u8 } else { 0 };
        Text { chunks, eol, open: self.r.chance(1, 4) }
    }

    fn storage_files(&mut self) -> Vec<FileSpec> {
        if self.r.chance(1, 50) {
            // A chain about as deep as nesting may go.
            let n = self.r.range(60, 70);
            return (0..n)
                .map(|i| {
                    let mut chunks = vec![vec![format!("line {i}")]];
                    chunks.push(vec![format!("include::f{}.adoc[]", i + 1)]);
                    if self.r.chance(1, 2) {
                        chunks.push(vec![format!("end {i}")]);
                    }
                    let t = text(chunks);
                    FileSpec { name: format!("f{i}.adoc"), old: t.clone(), text: t }
                })
                .collect();
        }
        let n = self.r.below(6);
        let mut names: Vec<String> = FILES.iter().map(|x| s(x)).collect();
        self.r.shuffle(&mut names);
        names.truncate(n);
        let mut out = vec![];
        for i in 0..n {
            let t = self.storage_text(&names.clone(), false);
            let old = if self.r.chance(1, 2) { self.storage_text(&names.clone(), false) } else { t.clone() };
            out.push(FileSpec { name: names[i].clone(), text: t, old });
        }
        out
    }

    fn storage_main(&mut self, files: &[FileSpec]) -> Text {
        let mut names: Vec<String> = files.iter().map(|f| f.name.clone()).collect();
        names.truncate(8);
        self.storage_text(&names, true)
    }

    // ------------------------------------------------------------ structured documents

    fn reference(&mut self) -> String {
        match self.r.below(12) {
            0 => s("{sp}"),
            1 => s("{empty}"),
            2 => s("{nosuch}"),
            3 => s(self.r.pick(&["{doctitle}", "{author}", "{revnumber}", "{email}", "{lastname}", "{revremark}", "{firstname}"])),
            _ => format!("{{{}}}", self.name()),
        }
    }

    fn probe_words(&mut self) -> String {
        let mut v = vec![];
        for _ in 0..self.r.range(1, 4) {
            if self.r.chance(2, 3) {
                let a = self.reference();
                v.push(if self.r.chance(1, 4) { format!("x{a}y") } else { a });
            } else {
                v.push(self.word());
            }
        }
        v.join(" ")
    }

    /// An entry whose value stays plain when rendered.
    fn plain_entry(&mut self) -> Vec<String> {
        let n = match self.r.below(14) {
            0 => s("sectnums"),
            1 => s("toc"),
            2 => s("sectnumlevels"),
            3 => s(self.r.pick(&["doctitle", "revnumber", "email", "lastname", "firstname", "revdate"])),
            4 => s(self.r.pick(&["sp", "empty", "plus"])),
            5 => s("example-caption"),
            6 => s("hardbreaks"),
            _ => self.name(),
        };
        let v = s(self.r.pick(PLAIN_VALUES));
        if n == "hardbreaks" || n == "sectnumlevels" {
            return match self.r.below(3) {
                0 => vec![format!(":{n}!:")],
                _ if n == "sectnumlevels" => vec![format!(":{n}: {}", self.r.range(0, 5))],
                _ => vec![format!(":{n}:")],
            };
        }
        match self.r.below(16) {
            0 | 1 => vec![format!(":{n}!:")],
            2 => vec![format!(":!{n}:")],
            3 => vec![format!(":{n}:")],
            4 => vec![format!(":{n}: {v} \\"), self.word()],
            5 => vec![format!(":{n}: {{{}}}", self.name())],
            6 => vec![format!(":{n}: {} {{{}}}", self.word(), self.name())],
            7 => vec![format!(":{}: {v}", n.to_uppercase())],
            8 => vec![format!(":{n}: x<{v}")],
            _ => vec![format!(":{n}: {v}")],
        }
    }

    fn header(&mut self, files: &[FileSpec]) -> Vec<Vec<String>> {
        let mut c = vec![vec![match self.r.below(4) {
            0 => format!("= {} {{{}}}", self.words(1, 2), self.name()),
            1 => format!("= {} <x> & y", self.words(1, 2)),
            _ => format!("= {}", self.words(1, 3)),
        }]];
        let author = self.r.below(3);
        let rev = author < 1 && self.r.chance(2, 3) || author == 1 && self.r.chance(1, 3);
        let mut lines: Vec<Vec<String>> = vec![];
        if author < 2 {
            let mut l = s(self.r.pick(&["Ann", "Ann Lee", "Ann B Lee"]));
            if self.r.chance(1, 2) {
                l.push_str(" <ann@x.org>");
            }
            if self.r.chance(1, 3) {
                l.push_str(self.r.pick(&["; Bo Kim", "; Bo", "; Bo T Kim <bo@x.org>"]));
            }
            lines.push(vec![l]);
            if rev {
                lines.push(vec![format!(
                    "v{}.{}, 2024-0{}-11{}",
                    self.r.below(9),
                    self.r.below(9),
                    self.r.range(1, 9),
                    if self.r.chance(1, 2) { ": final" } else { "" }
                )]);
            }
        }
        let mut k = 0;
        for _ in 0..self.r.below(6) {
            let e = match self.r.below(8) {
                0 => vec![s(self.r.pick(&["// a comment", "// a comment", "// x ///"]))],
                1 if !files.is_empty() => {
                    let i = self.r.below(files.len());
                    vec![format!("include::{}[]", files[i].name)]
                }
                _ => self.plain_entry(),
            };
            let at = self.r.range(k, lines.len());
            // Entries can precede the author line in either order.
            lines.insert(at, e);
            k = if self.r.chance(1, 2) { at } else { 0 };
        }
        c.extend(lines);
        c.push(vec![String::new()]);
        c
    }

    fn body(&mut self, files: &[FileSpec], n: usize, sections: bool) -> Vec<Vec<String>> {
        let mut c: Vec<Vec<String>> = vec![];
        let mut open: Vec<&str> = vec![];
        let mut seen_section = false;
        for _ in 0..n {
            let mut v = vec![];
            match self.r.below(14) {
                0..=3 => {
                    for _ in 0..self.r.range(1, 3) {
                        v.extend(self.plain_entry());
                        if self.r.chance(1, 2) {
                            v.push(String::new());
                        }
                    }
                }
                4 if sections && open.is_empty() => {
                    let i = self.next_id();
                    let w = self.probe_words();
                    let m = if seen_section && self.r.chance(1, 2) { "===" } else { "==" };
                    seen_section = true;
                    v.push(format!("{m} S{i} {w}"));
                }
                5 => {
                    let i = self.next_id();
                    let w = self.probe_words();
                    v.push(format!(".T{i} {w}"));
                    let i = self.next_id();
                    let w = self.probe_words();
                    v.push(format!("P{i} {w}"));
                }
                6 => {
                    let i = self.next_id();
                    v.push(format!("P{i} image:I{i}.png[]"));
                }
                7 | 8 => {
                    let d = *self.r.pick(&["====", "****", "--", "____"]);
                    if open.last() == Some(&d) {
                        open.pop();
                        v.push(s(d));
                    } else if !open.contains(&d) && open.len() < 2 {
                        open.push(d);
                        v.push(s(d));
                    }
                }
                9 if !files.is_empty() => {
                    let i = self.r.below(files.len());
                    v.push(format!("include::{}[]", files[i].name));
                }
                _ => {
                    for _ in 0..self.r.range(1, 2) {
                        let i = self.next_id();
                        let w = self.probe_words();
                        v.push(format!("P{i} {w}"));
                    }
                    if self.r.chance(1, 6) {
                        let i = self.next_id();
                        v.insert(0, self.r.pick(&["[.role1]", "[[anc"]).to_string());
                        if v[0] == "[[anc" {
                            v[0] = format!("[[anc{i}]]");
                        }
                    }
                }
            }
            if !v.is_empty() {
                v.push(String::new());
                c.push(v);
            }
        }
        while let Some(d) = open.pop() {
            c.push(vec![s(d), String::new()]);
        }
        c
    }

    /// Stored files of entries (for headers) and of body blocks.
    fn structured_files(&mut self) -> (Vec<FileSpec>, Vec<FileSpec>) {
        let mut h = vec![];
        let mut b = vec![];
        for i in 0..self.r.below(3) {
            let mk = |g: &mut G| {
                let mut c = vec![];
                for _ in 0..g.r.range(1, 3) {
                    c.push(g.plain_entry());
                }
                text(c)
            };
            let t = mk(self);
            let old = mk(self);
            h.push(FileSpec { name: format!("h{i}.adoc"), text: t, old });
        }
        for i in 0..self.r.below(3) {
            let sub: Vec<FileSpec> = b.clone();
            let n = self.r.range(1, 4);
            let t = text(self.body(&sub, n, false));
            let old = text(self.body(&sub, n, false));
            b.push(FileSpec { name: format!("b{i}.adoc"), text: t, old });
        }
        (h, b)
    }

    fn structured(&mut self, h: &[FileSpec], b: &[FileSpec]) -> Text {
        let mut c = vec![];
        if self.r.chance(4, 5) {
            c = self.header(h);
        } else {
            let i = self.next_id();
            c.push(vec![format!("P{i} start"), String::new()]);
        }
        let n = self.r.range(1, 9);
        c.extend(self.body(b, n, true));
        text(c)
    }

    // ------------------------------------------------------------ documents that leave traces

    fn residue(&mut self, files: &[FileSpec]) -> Text {
        let mut c: Vec<Vec<String>> = vec![];
        if self.r.chance(1, 2) {
            let mut h = vec![format!("= Doc {{aa}} {}", self.word())];
            for _ in 0..self.r.below(4) {
                h.push(self.structural_entry());
            }
            if self.r.chance(1, 3) {
                let n = self.r.range(1, 3);
                let l: Vec<String> = (0..n).map(|_| s(self.r.pick(AUTHORS))).collect();
                h.insert(1, l.join("; "));
                if self.r.chance(1, 2) {
                    h.insert(2, s(self.r.pick(REVISIONS)));
                }
            }
            h.push(String::new());
            c.push(h);
        }
        let n = self.r.range(1, 12);
        for _ in 0..n {
            let w = self.word();
            let mut v: Vec<String> = match self.r.below(42) {
                0..=4 => vec![format!("== Sec {w}")],
                5 | 6 => vec![format!("=== Sub {w}")],
                7 => vec![format!("==== Deep {w}")],
                8 | 9 => vec![s("[appendix]"), format!("== App {w}")],
                10 => vec![s("[appendix]"), format!("=== App sub {w}")],
                11 => vec![format!("[#id{}]", self.r.below(3)), format!("== With id {w}")],
                12 => vec![format!("[[id{},Ref {}]]", self.r.below(3), self.r.below(2)), format!("para {w}")],
                13..=16 => vec![self.structural_entry()],
                17 => vec![s(".Example title"), s("===="), format!("in {w}"), s("====")],
                18 => vec![s("[discrete]"), format!("== Loose {w}")],
                19 => vec![format!("para {{aa}} <<id{}>> *b* {w}", self.r.below(3))],
                20 => vec![s("image::pic.png[Alt]")],
                21 => vec![s(".Img"), s("image::pic.png[]")],
                22 => vec![s("----"), format!("code {w}"), s("----")],
                23 => vec![s("----"), s("never closed")],
                24 => vec![s("[quote]"), format!("text {w}")],
                25 => vec![format!("inline [[id{}]]anchor {w}", self.r.below(3))],
                26 => vec![s("[abstract]"), format!("== Abs {w}")],
                27 => vec![s("[%hardbreaks]"), s("one"), s("two")],
                28 => vec![s("image:in.png[] icon:x[] link:t[u]")],
                29 => vec![s("[.r#id1]"), s("--"), s("open"), s("--")],
                30 => vec![s("======= too deep")],
                31 => vec![s("= Second title")],
                34 => {
                    let t = self.rich();
                    vec![self.r.pick(&["[verse]", "[subs=\"quotes,macros\"]", "[subs=attributes]", "[subs=normal]", "[subs=\"+quotes\"]", "[listing]", "[literal]", "[pass]"]).to_string(), t]
                }
                35 => {
                    let (a, b) = (self.rich(), self.rich());
                    vec![format!(".{a}"), b]
                }
                36 => vec![format!("== {}", self.rich())],
                37 => {
                    let d = *self.r.pick(&["====", "****", "____", "--", "----", "....", "++++"]);
                    vec![s(d), self.rich(), s(d)]
                }
                38 => vec![format!(":{}: {}", self.name(), self.rich())],
                39..=41 => (0..self.r.range(1, 3)).map(|_| self.rich()).collect(),
                _ if !files.is_empty() => {
                    let i = self.r.below(files.len());
                    vec![format!("include::{}[]", files[i].name)]
                }
                _ => vec![format!("plain {w}"), format!("more {{{}}}", self.name())],
            };
            if self.r.chance(9, 10) {
                v.push(String::new());
            }
            c.push(v);
        }
        text(c)
    }

    /// Inline markup of all kinds.
    fn rich(&mut self) -> String {
        let mut v: Vec<String> = vec![];
        for _ in 0..self.r.range(1, 4) {
            let f = s(self.r.pick(INLINE));
            v.push(match self.r.below(8) {
                0 => format!("{} {f}", self.word()),
                1 => format!("*{f}*"),
                2 => format!("+{f}+"),
                3 => format!("`{f}`"),
                _ => f,
            });
        }
        v.join(" ")
    }

    fn structural_entry(&mut self) -> String {
        match self.r.below(28) {
            16 => s(":hide-uri-scheme:"),
            17 => s(self.r.pick(&[":icons: image", ":icons!:", ":icons:", ":icontype: svg", ":iconsdir: ../ic", ":imagesdir: http://h/i", ":imagesdir: /abs/../x"])),
            18 | 19 => format!(":{}: {}", self.r.pick(&["author", "author", "Author", "authors"]), self.r.pick(AUTHORS)),
            20 => format!(":{}: {}", self.r.pick(&["email", "firstname", "middlename", "lastname", "authorinitials", "author_2", "doctitle"]), self.r.pick(PLAIN_VALUES)),
            21 => format!(":{}: {}", self.r.pick(&["revnumber", "revdate", "revremark"]), self.r.pick(REVISIONS)),
            0..=2 => s(":sectnums:"),
            3 => s(":sectnums!:"),
            4 => s(":sectnums: all"),
            5 => format!(":sectnumlevels: {}", self.r.range(0, 5)),
            6 => format!(":idprefix: {}", self.r.pick(&["p-", "", "_"])),
            7 => format!(":idseparator: {}", self.r.pick(&["-", "", "_"])),
            8 => s(":sectids!:"),
            9 => s(":sectids:"),
            10 => s(":toc:"),
            11 => s(":hardbreaks:"),
            12 => s(":hardbreaks!:"),
            13 => s(":imagesdir: img"),
            14 => s(":icons: font"),
            _ => format!(":{}: {}", self.name(), self.r.pick(PLAIN_VALUES)),
        }
    }

    /// A new document, or one that is almost like the last one.
    fn varied(&mut self, mk: impl Fn(&mut G) -> Text) -> Text {
        let mut t = match self.last.take() {
            Some(t) if self.r.chance(1, 3) => t,
            _ => {
                let t = mk(self);
                self.last = Some(t.clone());
                return t;
            }
        };
        let other = mk(self);
        for _ in 0..self.r.range(1, 3) {
            let n = t.chunks.len();
            if n == 0 {
                break;
            }
            let i = self.r.below(n);
            match self.r.below(5) {
                0 => {
                    t.chunks.remove(i);
                }
                1 => {
                    let c = t.chunks[i].clone();
                    t.chunks.insert(i, c);
                }
                2 => {
                    let j = self.r.below(n);
                    t.chunks.swap(i, j);
                }
                k => {
                    if !other.chunks.is_empty() {
                        let c = other.chunks[self.r.below(other.chunks.len())].clone();
                        if k == 3 {
                            t.chunks[i] = c;
                        } else {
                            t.chunks.insert(i, c);
                        }
                    }
                }
            }
        }
        self.last = Some(t.clone());
        t
    }

    /// Makes words of a text differ from one repetition of the history to the next.
    fn mark(&mut self, t: &mut Text) {
        for l in t.chunks.iter_mut().flatten() {
            if l.starts_with("include::") {
                continue;
            }
            // (Names of attribute entries stay the same.)
            let from = if l.starts_with(':') { l.find(": ").unwrap_or(l.len()) } else { 0 };
            let (a, b) = l.split_at(from);
            let mut out = a.to_string();
            let mut word = String::new();
            for c in b.chars().chain(['\n']) {
                if c.is_ascii_alphanumeric() {
                    word.push(c);
                    continue;
                }
                out.push_str(&word);
                if word.len() > 2 && MARKED.contains(&word.as_str()) && self.r.chance(1, 2) {
                    out.push(crate::world::MARK);
                }
                word.clear();
                if c != '\n' {
                    out.push(c);
                }
            }
            *l = out;
        }
    }

    // ------------------------------------------------------------ arbitrary documents

    fn soup(&mut self, files: &[FileSpec]) -> Text {
        let n = self.r.range(1, 14);
        let mut c = vec![];
        let long = self.r.chance(1, 60);
        if self.r.chance(1, 40) {
            // Much of the same, or one in another.
            let k = self.r.range(2, 120) * self.r.range(1, 4);
            let mut l: Vec<String> = vec![];
            match self.r.below(6) {
                0 => {
                    let d = *self.r.pick(&["=", "*", "_"]);
                    let s2 = self.r.below(4);
                    let k = k.min(160);
                    for i in 0..k {
                        l.push(d.repeat(4 + i));
                        for j in 0..s2 {
                            l.push(format!("{} s", "=".repeat(2 + j)));
                            l.push(String::new());
                        }
                    }
                    if self.r.chance(1, 2) {
                        l.push(s("x"));
                        l.extend((0..k).rev().map(|i| d.repeat(4 + i)));
                    }
                }
                1 => {
                    let t: String = (0..self.r.range(1, 3)).map(|_| *self.r.pick(SOUP_TOKENS)).collect();
                    l.extend(t.repeat(4 * k).split('\n').map(s));
                }
                2 => {
                    let m = self.macro_();
                    l.push(m.repeat(k));
                }
                3 => {
                    let t = s(self.r.pick(SOUP_LINES));
                    l.push(t.repeat(4 * k));
                }
                4 => {
                    let t = self.word();
                    l.extend((0..3 * k).map(|i| if i % 2 == 0 { format!("== {t}") } else { String::new() }));
                }
                _ => {
                    let t = [s(self.r.pick(SOUP_LINES)), s(self.r.pick(SOUP_LINES))];
                    l.extend((0..2 * k).map(|i| t[i % 2].clone()));
                }
            }
            // Not so much that the time a run takes is what decides about it.
            let mut size = 0;
            l.retain(|x| {
                size += x.len() + 1;
                size < 30_000
            });
            l.push(String::new());
            c.push(l);
        }
        for _ in 0..if long { n * 30 } else { n } {
            let mut l = String::new();
            for _ in 0..self.r.range(1, 2) {
                match self.r.below(14) {
                    10 | 11 => {
                        let m = self.macro_();
                        l.push_str(&m);
                    }
                    12 => {
                        let n = self.r.range(1, 4);
                        let mut v: Vec<String> = (0..n).map(|_| s(self.r.pick(AUTHORS))).collect();
                        let r = s(self.r.pick(REVISIONS));
                        let e = self.entry(false).remove(0);
                        match self.r.below(4) {
                            0 => v.push(r),
                            1 => l.push_str("= T\n"),
                            2 => l.push_str(&format!("= T\n{e}\n")),
                            _ => {}
                        }
                        l.push_str(&v.join(self.r.pick(&["; ", ";", "\n"])));
                        if self.r.chance(1, 2) {
                            l.push_str(&format!("\n{}", self.r.pick(REVISIONS)));
                        }
                    }
                    13 => {
                        // A long line of wide characters with something at its end.
                        let w = *self.r.pick(&["\u{e9}", "\u{65e5}", "\u{1d11e}", "ab\u{e9}"]);
                        let w = w.repeat(self.r.range(5, 40));
                        let a = self.attr_list();
                        let m = self.macro_();
                        l.push_str(&match self.r.below(6) {
                            0 => format!("[{w},{a}]"),
                            1 => format!("[x=\"{w}\",{a}]"),
                            2 => format!(":{w}: {m}"),
                            3 => format!("image::{w}[{a}]"),
                            4 => format!("[[{w},{a}]]"),
                            _ => format!("{w} {m}"),
                        });
                    }
                    0..=2 => {
                        for _ in 0..self.r.range(1, 12) {
                            l.push_str(self.r.pick(SOUP_TOKENS));
                        }
                    }
                    3 if !files.is_empty() => {
                        let i = self.r.below(files.len());
                        l.push_str(&format!("include::{}[]", files[i].name));
                    }
                    4 => {
                        let e = self.entry(true);
                        l.push_str(&e[0]);
                    }
                    _ => l.push_str(self.r.pick(SOUP_LINES)),
                }
                if self.r.chance(7, 8) {
                    break;
                }
            }
            let ls: Vec<String> = l.split('\n').map(s).collect();
            c.push(ls);
        }
        let eol = if self.r.chance(1, 5) { 1 + self.r.below(2) as u8 } else { 0 };
        Text { chunks: c, eol, open: self.r.chance(1, 3) }
    }

    /// An attribute list of random parts.
    fn attr_list(&mut self) -> String {
        let mut v = vec![];
        for _ in 0..self.r.below(5) {
            v.push(s(self.r.pick(ATTR_PARTS)));
        }
        v.join(self.r.pick(&[",", ",", ", ", " , ", ";"]))
    }

    /// A macro, block attribute line or marked text with a random attribute list.
    fn macro_(&mut self) -> String {
        let t = self.r.pick(MACRO_TARGETS).to_string();
        let a = self.attr_list();
        if self.r.chance(1, 10) {
            return format!("\\{}", self.macro_());
        }
        match self.r.below(16) {
            0 | 1 => format!("image:{t}[{a}]"),
            2 => format!("image::{t}[{a}]"),
            3 => format!("icon:{t}[{a}]"),
            4 => format!("link:{t}[{a}]"),
            5 => format!("http://{t}[{a}]"),
            6 => format!("mailto:{t}[{a}]"),
            7 => format!("[{a}]#{}#", self.word()),
            8 => format!("a [{a}]##{}## b", self.word()),
            9 => format!("pass:{}[{a}]", self.r.pick(&["", "q", "a,q", "c,n", "v", "bogus", "p,r,m,q,a,c", ",", "+q"])),
            10 => format!("{}::{t}[{a}]", self.r.pick(&["video", "audio", "toc", "include", "unknown"])),
            11 => format!("{}:{t}[{a}]", self.r.pick(&["footnote", "xref", "anchor", "stem", "kbd", "menu", "indexterm", "unknown"])),
            12 => format!("\"{t}\"[{a}] [{a}]*{t}* [{a}]`{t}` [{a}]+{t}+"),
            _ => format!("[{a}]"),
        }
    }

    // ------------------------------------------------------------ faults, configuration, histories

    fn faults(&mut self, max: usize, panics: bool, gentle: bool) -> Vec<Fault> {
        let mut v: Vec<Fault> = vec![];
        for _ in 0..self.r.below(max + 1) {
            let nth = match self.r.below(4) {
                0 => self.r.below(30),
                _ => self.r.below(5),
            };
            let (site, kind) = if panics && self.r.chance(1, 3) {
                (if self.r.chance(1, 2) { INC } else { REN }, Kind::Panic)
            } else if !gentle && self.r.chance(1, 8) {
                (2, *self.r.pick(&[Kind::Torn, Kind::Flip, Kind::DupLine, Kind::LoseLine, Kind::SwapLines, Kind::Crlf, Kind::Bom]))
            } else {
                let all = [
                    Kind::Missing,
                    Kind::Missing,
                    Kind::Missing,
                    Kind::Torn,
                    Kind::Torn,
                    Kind::Stale,
                    Kind::Stale,
                    Kind::Swap,
                    Kind::Flip,
                    Kind::DupLine,
                    Kind::LoseLine,
                    Kind::SwapLines,
                    Kind::Empty,
                    Kind::Empty,
                    Kind::Crlf,
                    Kind::Cycle,
                    Kind::Bom,
                ];
                let soft = [Kind::Missing, Kind::Missing, Kind::Stale, Kind::Empty, Kind::DupLine, Kind::LoseLine, Kind::Torn];
                (INC, if gentle { *self.r.pick(&soft) } else { *self.r.pick(&all) })
            };
            if v.iter().any(|f| f.site == site && (f.nth == nth || site == 2)) {
                continue;
            }
            let arg = self.r.below(1 << 20) as u64;
            v.push(Fault { site, nth: if site == 2 { 0 } else { nth }, kind, arg });
        }
        v
    }

    fn api_attr(&mut self, plain: bool) -> Attr {
        let name = match self.r.below(10) {
            0 if plain => s(self.r.pick(&["sectnums", "toc", "sectids", "idprefix", "sectnumlevels"])),
            0 => s(self.r.pick(&["sectnums", "toc", "sectids", "idprefix", "sectnumlevels", "imagesdir", "iconsdir", "icons", "icontype", "idseparator", "hide-uri-scheme", "hardbreaks-option"])),
            1 => s(self.r.pick(&["doctitle", "author", "revnumber", "email", "lastname", "firstname", "revdate"])),
            _ => self.name(),
        };
        let ctx = *self.r.pick(&[ANYWHERE, API_ONLY, API_ONLY, API_OR_HEADER, API_OR_BODY]);
        let val = match self.r.below(8) {
            0 => Val::Bool(true),
            1 => Val::Bool(false),
            2 if !plain => Val::Str(s(self.r.pick(&["<b>&", "{bb}", "", "*x*", "a--b"]))),
            3 | 4 => Val::Str(s(self.r.pick(TARGET_VALUES))),
            _ => Val::Str(s(self.r.pick(PLAIN_VALUES))),
        };
        let val = if name == "sectnumlevels" { Val::Str(self.r.range(0, 5).to_string()) } else { val };
        if self.r.chance(1, 40) {
            let n = self.r.below(12).to_string();
            return Attr { name: s("max-attribute-value-size"), val: Val::Str(n), ctx: *self.r.pick(&[ANYWHERE, API_ONLY, API_ONLY]) };
        }
        // Names are not case-sensitive, and one has an alias.
        let name = match self.r.below(24) {
            0 | 1 => name.to_uppercase(),
            2 => s("hardbreaks"),
            3 => s("Hardbreaks"),
            _ => name,
        };
        let val = if remap(&name) == "hardbreaks-option" && plain { Val::Bool(self.r.chance(1, 2)) } else { val };
        Attr { name, val, ctx }
    }

    fn cfg(&mut self, plain: bool) -> Cfg {
        let n = self.r.below(6);
        Cfg {
            attrs: (0..n).map(|_| self.api_attr(plain)).collect(),
            primary: if self.r.chance(1, 2) { Some(s(self.r.pick(&["main.adoc", "dir/main.adoc", "a.adoc"]))) } else { None },
            handler: self.r.chance(11, 12),
            renderer: self.r.chance(2, 3) as u8,
        }
    }

    /// A history of up to `parses` parses on up to three parsers.
    fn history(&mut self, parses: usize, plain: bool, mut mk: impl FnMut(&mut G, usize) -> ParseOp) -> Vec<Op> {
        let mut ops = vec![Op::New { p: 0 }];
        let mut live = vec![0usize];
        for k in 0..parses {
            let p = live[self.r.below(live.len())];
            match self.r.below(10) {
                0 => ops.push(Op::Set { p, attr: self.api_attr(plain) }),
                1 if live.len() < 3 => {
                    let q = (0..3).find(|q| !live.contains(q)).unwrap();
                    ops.push(if self.r.chance(2, 3) { Op::Clone { p, q } } else { Op::New { p: q } });
                    live.push(q);
                }
                2 if live.len() > 1 => {
                    live.retain(|x| *x != p);
                    ops.push(Op::Drop { p });
                }
                _ => {}
            }
            let p = live[self.r.below(live.len())];
            let parse = mk(self, k);
            ops.push(Op::Parse { p, parse });
        }
        ops
    }
}

/// A random environment.
pub fn env(r: &mut Rng) -> Env {
    Env {
        hash_seed: r.next() >> 16,
        heap_seed: if r.chance(1, 2) { r.next() >> 16 } else { 0 },
        attr_order: 0,
        cold: false,
        warmups: 0,
        clock: r.below(100_000_000) as u64,
        thread: r.chance(1, 3) as u8,
    }
}

/// Documents of a mixed world: which generator is used is itself drawn.
enum World {
    Storage(Vec<FileSpec>),
    Structured(Vec<FileSpec>, Vec<FileSpec>),
    Residue(Vec<FileSpec>),
    Soup(Vec<FileSpec>),
}

impl World {
    fn draw(g: &mut G, weights: [usize; 4]) -> World {
        let mut k = g.r.below(weights.iter().sum());
        let mut which = 0;
        while k >= weights[which] {
            k -= weights[which];
            which += 1;
        }
        match which {
            0 => World::Storage(g.storage_files()),
            1 => {
                let (h, b) = g.structured_files();
                g.plain = true;
                World::Structured(h, b)
            }
            x => {
                let mut f: Vec<FileSpec> = vec![];
                for i in 0..g.r.below(4) {
                    let name = format!("r{i}.adoc");
                    let mut known = f.clone();
                    if g.r.chance(1, 4) {
                        // Self-inclusion.
                        known.push(FileSpec { name: name.clone(), text: Text::default(), old: Text::default() });
                    }
                    let mk = |g: &mut G| if x == 2 { g.residue(&known) } else { g.soup(&known) };
                    let text = mk(g);
                    let old = if g.r.chance(1, 2) { mk(g) } else { text.clone() };
                    f.push(FileSpec { name, text, old });
                }
                if x == 2 { World::Residue(f) } else { World::Soup(f) }
            }
        }
    }
    fn files(&self) -> Vec<FileSpec> {
        match self {
            World::Storage(f) | World::Residue(f) | World::Soup(f) => f.clone(),
            World::Structured(h, b) => h.iter().chain(b.iter()).cloned().collect(),
        }
    }
    fn main(&self, g: &mut G) -> Text {
        match self {
            World::Storage(f) => g.storage_main(f),
            World::Structured(h, b) => g.structured(h, b),
            World::Residue(f) => g.varied(|g| g.residue(f)),
            World::Soup(f) => g.varied(|g| g.soup(f)),
        }
    }
    fn plain(&self) -> bool {
        matches!(self, World::Structured(..))
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut g = G { r: Rng::new(seed), id: 0, verbatim: prop != "C03", last: None, plain: false };
    let mut plan = Plan {
        prop: s(prop),
        seed,
        class: String::new(),
        env: env(&mut g.r),
        files: vec![],
        clients: vec![],
        switches: vec![],
        envs: vec![],
        expect: None,
        names: vec![],
        reads: if g.r.chance(5, 6) { 20 } else { 110 },
    };
    match prop {
        "C01" | "C02" | "C03" => {
            let w = World::draw(&mut g, [8, 1, 0, if prop == "C03" { 0 } else { 1 }]);
            plan.files = w.files();
            let cfg = g.cfg(w.plain());
            let n = g.r.range(1, 4);
            let ops = g.history(n, w.plain(), |g, _| ParseOp {
                doc: w.main(g),
                faults: g.faults(4, false, false),
                nests: vec![],
            });
            plan.clients.push(Client { cfg, ops });
        }
        "C04" => {
            let w = World::draw(&mut g, [0, 1, 0, 0]);
            plan.files = w.files();
            let mut cfg = g.cfg(true);
            for _ in 0..g.r.below(4) {
                cfg.attrs.push(g.api_attr(true));
            }
            let n = g.r.range(1, 5);
            let ops = g.history(n, true, |g, _| ParseOp {
                doc: w.main(g),
                faults: g.faults(2, false, true),
                nests: vec![],
            });
            plan.clients.push(Client { cfg, ops });
        }
        "C05" => {
            let w = World::draw(&mut g, [1, 2, 5, 2]);
            plan.files = w.files();
            let cfg = g.cfg(w.plain());
            let n = g.r.range(2, 6);
            let ops = g.history(n, w.plain(), |g, _| {
                let panics = g.r.chance(1, 6);
                ParseOp { doc: w.main(g), faults: if g.r.chance(1, 3) { g.faults(2, panics, false) } else { vec![] }, nests: vec![] }
            });
            plan.clients.push(Client { cfg, ops });
        }
        "C06" => {
            let w = World::draw(&mut g, [1, 4, 3, 1]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            cfg.renderer = 1;
            cfg.handler = true;
            let n = g.r.range(2, 5);
            let ops = g.history(n, w.plain(), |g, k| {
                let mut f = if g.r.chance(1, 3) { g.faults(2, false, w.plain()) } else { vec![] };
                if k == 0 || g.r.chance(1, 2) {
                    let site = if g.r.chance(1, 3) { INC } else { REN };
                    let nth = if g.r.chance(3, 4) { g.r.below(3) } else { g.r.below(30) };
                    f.retain(|x| x.site != site || x.nth != nth);
                    f.insert(0, Fault { site, nth, kind: Kind::Panic, arg: 0 });
                }
                ParseOp { doc: w.main(g), faults: f, nests: vec![] }
            });
            plan.clients.push(Client { cfg, ops });
        }
        "C07" => {
            let w = World::draw(&mut g, [2, 3, 4, 1]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            cfg.renderer = 1;
            cfg.handler = true;
            let n = g.r.range(1, 3);
            let ops = g.history(n, w.plain(), |g, _| {
                let mut op = ParseOp {
                    doc: w.main(g),
                    faults: if g.r.chance(1, 4) { g.faults(2, false, w.plain()) } else { vec![] },
                    nests: vec![],
                };
                for _ in 0..g.r.range(1, 3) {
                    let mut inner = ParseOp {
                        doc: w.main(g),
                        faults: if g.r.chance(1, 3) { g.faults(2, true, w.plain()) } else { vec![] },
                        nests: vec![],
                    };
                    if g.r.chance(1, 3) {
                        inner.nests.push(Nest {
                            site: if g.r.chance(1, 2) { INC } else { REN },
                            nth: g.r.below(6),
                            own: g.r.chance(1, 3),
                            parse: ParseOp { doc: w.main(g), faults: vec![], nests: vec![] },
                        });
                    }
                    op.nests.push(Nest {
                        site: if g.r.chance(1, 2) { INC } else { REN },
                        nth: if g.r.chance(3, 4) { g.r.below(3) } else { g.r.below(20) },
                        own: g.r.chance(1, 4),
                        parse: inner,
                    });
                }
                op
            });
            plan.clients.push(Client { cfg, ops });
        }
        "C08" => {
            let w = World::draw(&mut g, [2, 2, 4, 3]);
            plan.files = w.files();
            let n = g.r.range(2, 4);
            let shared = w.main(&mut g);
            for _ in 0..n {
                let mut cfg = g.cfg(w.plain());
                cfg.renderer = g.r.chance(2, 3) as u8;
                let k = g.r.range(1, 2);
                let ops = g.history(k, w.plain(), |g, _| {
                    let mut faults = if g.r.chance(1, 3) { g.faults(2, true, false) } else { vec![] };
                    if g.r.chance(1, 4) {
                        let site = if g.r.chance(1, 2) { INC } else { REN };
                        let nth = g.r.below(5);
                        if !faults.iter().any(|f| f.site == site && f.nth == nth) {
                            faults.push(Fault { site, nth, kind: Kind::Stall, arg: 0 });
                        }
                    }
                    ParseOp { doc: if g.r.chance(1, 3) { shared.clone() } else { w.main(g) }, faults, nests: vec![] }
                });
                plan.clients.push(Client { cfg, ops });
            }
            plan.env.thread = 0;
        }
        "C09" => {
            let w = World::draw(&mut g, [2, 2, 4, 3]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            for _ in 0..g.r.below(8) {
                cfg.attrs.push(g.api_attr(w.plain()));
            }
            let k = g.r.range(1, 2);
            let ops = g.history(k, w.plain(), |g, _| ParseOp {
                doc: w.main(g),
                faults: if g.r.chance(1, 3) { g.faults(2, true, false) } else { vec![] },
                nests: vec![],
            });
            plan.clients.push(Client { cfg, ops });
            for i in 0..3 {
                let mut e = env(&mut g.r);
                e.attr_order = g.r.next() >> 20;
                e.warmups = g.r.below(4);
                e.cold = i == 0 && g.r.chance(1, 4);
                if i == 1 {
                    // Only the hash seed differs.
                    e = Env { hash_seed: g.r.next() >> 16, ..plan.env.clone() };
                }
                if i == 2 {
                    // Nothing but history and memory.
                    e = Env { warmups: g.r.range(1, 6), heap_seed: g.r.next() >> 16, ..plan.env.clone() };
                }
                plan.envs.push(e);
            }
        }
        "C10" => {
            let w = World::draw(&mut g, [1, 1, 2, 12]);
            plan.files = w.files();
            let cfg = g.cfg(false);
            let n = g.r.range(1, 3);
            let ops = g.history(n, false, |g, _| ParseOp { doc: w.main(g), faults: g.faults(4, false, false), nests: vec![] });
            plan.clients.push(Client { cfg, ops });
        }
        "C13" => {
            let w = World::draw(&mut g, [3, 4, 2, 3]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            cfg.handler = g.r.chance(19, 20);
            cfg.renderer = g.r.chance(3, 4) as u8;
            let n = g.r.range(1, 3);
            let ops = g.history(n, w.plain(), |g, _| ParseOp { doc: w.main(g), faults: g.faults(3, false, false), nests: vec![] });
            plan.clients.push(Client { cfg, ops });
        }
        "C14" => {
            let w = World::draw(&mut g, [2, 2, 4, 3]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            cfg.renderer = g.r.chance(4, 5) as u8;
            let n = g.r.range(1, 3);
            let ops = g.history(n, w.plain(), |g, _| {
                let mut op = ParseOp {
                    doc: w.main(g),
                    faults: if g.r.chance(1, 2) { g.faults(3, true, false) } else { vec![] },
                    nests: vec![],
                };
                if g.r.chance(1, 4) {
                    op.nests.push(Nest {
                        site: if g.r.chance(1, 2) { INC } else { REN },
                        nth: g.r.below(4),
                        own: g.r.chance(1, 3),
                        parse: ParseOp { doc: w.main(g), faults: g.faults(1, true, false), nests: vec![] },
                    });
                }
                op
            });
            plan.clients.push(Client { cfg, ops });
            plan.each_text(&mut |t| g.mark(t));
        }
        "C15" => {
            let w = World::draw(&mut g, [1, 1, 4, 8]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            cfg.renderer = 0;
            let again = plan.seed % 4 == 3;
            let n = g.r.range(1, 3);
            let ops = g.history(n, w.plain(), |g, _| ParseOp {
                doc: w.main(g),
                faults: if again && g.r.chance(1, 2) { g.faults(3, true, false) } else { vec![] },
                nests: vec![],
            });
            plan.clients.push(Client { cfg, ops });
            plan.each_text(&mut |t| g.mark(t));
            if !again {
                // Often only a few lines.
                if g.r.chance(1, 3) {
                    let names: Vec<String> = plan.files.iter().map(|f| f.name.clone()).collect();
                    plan.each_text(&mut |t| {
                        let mut c = vec![];
                        for _ in 0..g.r.range(1, 2) {
                            match g.r.below(6) {
                                0 => c.push(g.entry(true)),
                                1 => c.push(vec![format!("== {}", g.word())]),
                                2 if !names.is_empty() => c.push(vec![format!("include::{}[]", g.r.pick(&names))]),
                                3 => {
                                    let m = g.macro_();
                                    c.push(m.split('\n').map(s).collect());
                                }
                                _ => {
                                    let l = *g.r.pick(SOUP_LINES);
                                    c.push(l.split('\n').map(s).collect());
                                }
                            }
                            if g.r.chance(3, 4) {
                                c.push(vec![String::new()]);
                            }
                        }
                        t.chunks = c;
                        g.mark(t);
                    });
                } else if g.r.chance(1, 2) {
                    plan.each_text(&mut |t| {
                        let n = t.chunks.len();
                        if n > 3 {
                            let a = g.r.below(n - 1);
                            let b = (a + g.r.range(1, 3)).min(n);
                            t.chunks = t.chunks[a..b].to_vec();
                        }
                    });
                }
                // Names and targets may differ from one copy to the next, too.
                plan.each_text(&mut |t| {
                    for l in t.chunks.iter_mut().flatten() {
                        if l.starts_with(':')
                            && let Some(i) = l[1..].find(':')
                            && g.r.chance(1, 2)
                        {
                            l.insert(i + 1, crate::world::MARK);
                        } else if l.starts_with("include::")
                            && let Some(i) = l.find('[')
                            && g.r.chance(1, 8)
                        {
                            l.insert(i, crate::world::MARK);
                        }
                    }
                });
                plan.each_text(&mut |t| {
                    let mut size = 0;
                    t.chunks.iter_mut().for_each(|c| {
                        c.retain(|l| {
                            size += l.len() + 1;
                            size <= 1500
                        })
                    });
                    if g.r.chance(1, 3) {
                        t.eol = 3 + g.r.below(2) as u8;
                    }
                });
                for f in &mut plan.files {
                    for t in [&mut f.text, &mut f.old] {
                        t.chunks.iter_mut().for_each(|c| c.retain(|l| !l.starts_with("include::")));
                    }
                }
                // Values that grow with each copy are more work each time.
                plan.each_text(&mut |t| {
                    let mut more = false;
                    for l in t.chunks.iter_mut().flatten() {
                        let was = more;
                        more = (more || l.starts_with(':')) && l.ends_with('\\');
                        if was || l.starts_with(':') || t.eol > 2 {
                            *l = l.replace('{', "(");
                        }
                    }
                });
            }
        }
        "C11" => {
            let w = World::draw(&mut g, [1, 1, 3, 2]);
            plan.files = w.files();
            let cfg = g.cfg(w.plain());
            let n = g.r.range(2, 5);
            let ops = g.history(n, w.plain(), |g, _| ParseOp {
                doc: w.main(g),
                faults: if g.r.chance(1, 3) { g.faults(2, true, false) } else { vec![] },
                nests: vec![],
            });
            let span = 1 << g.r.range(6, 20);
            for _ in 0..g.r.below(40) {
                let at = crate::sched::at(g.r.below(3), 1 + g.r.below(span) as u64);
                plan.switches.push((at, g.r.below(3) as u64));
            }
            plan.switches.sort();
            plan.switches.dedup_by_key(|x| x.0);
            plan.clients.push(Client { cfg, ops });
        }
        "C12" => {
            let w = World::draw(&mut g, [6, 2, 2, 1]);
            plan.files = w.files();
            let mut cfg = g.cfg(w.plain());
            cfg.handler = true;
            let bad = g.r.range(1, 4);
            let n = bad + g.r.range(1, 2);
            let shared = w.main(&mut g);
            let ops = g.history(n, w.plain(), |g, k| {
                let doc = if g.r.chance(2, 3) { shared.clone() } else { w.main(g) };
                let faults = if k < bad {
                    let panics = g.r.chance(1, 4);
                    let mut f = g.faults(4, panics, false);
                    if f.is_empty() {
                        f.push(Fault { site: INC, nth: g.r.below(3), kind: Kind::Missing, arg: 0 });
                    }
                    f
                } else {
                    vec![]
                };
                ParseOp { doc, faults, nests: vec![] }
            });
            plan.clients.push(Client { cfg, ops });
        }
        _ => {}
    }
    if plan.files.len() > 10 {
        plan.reads = 110;
    }
    if amplify(&mut plan, g.plain) {
        plan.reads = 600;
    }
    // (A large file that includes itself.)
    let large = plan.files.iter().map(|f| f.text.render().len()).max().unwrap_or(0);
    plan.reads = plan.reads.min((100_000 / large.max(1)).max(6));
    if prop == "C15" && plan.seed % 4 != 3 {
        // (No file includes another.)
        plan.reads = 100_000;
    }
    plan
}

/// Now and then, much more of something than a counter or limit may have been made for.
/// True if many includes are to be answered.
fn amplify(plan: &mut Plan, plain: bool) -> bool {
    let mut r = Rng::new(plan.seed ^ 0x616d_706c_6966_79);
    let rate = if matches!(plan.prop.as_str(), "C09" | "C11") { 80 } else if plan.prop == "C10" { 25 } else { 40 };
    if matches!(plan.prop.as_str(), "C08" | "C14" | "C15") || !(r.chance(1, rate) || std::env::var_os("ADSIM_MORE").is_some()) {
        return false;
    }
    let prop = plan.prop.clone();
    let stored: usize = plan.files.iter().map(|f| f.text.render().len()).sum();
    let ops = &mut plan.clients[0].ops;
    let parses: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Parse { .. })).collect();
    if parses.is_empty() {
        return false;
    }
    let kinds: &[usize] = match prop.as_str() {
        _ if plain => &[0, 1, 2, 3],
        "C10" => &[0, 3, 4, 5, 5, 5, 5, 5],
        _ => &[0, 1, 2, 3, 4, 5],
    };
    match *r.pick(kinds) {
        // The same parse many times: another parse after that may notice.
        0 => {
            let i = parses[r.below(parses.len())];
            let Op::Parse { parse, .. } = &ops[i] else { return false };
            let size = parse.doc.render().len() + stored + 200;
            let most = if matches!(prop.as_str(), "C07" | "C11") { 12 } else { 300_000 / size };
            let k = (*r.pick(&[12, 70, 140, 270, 270])).min(most);
            let op = ops[i].clone();
            (0..k).for_each(|_| ops.insert(i, op.clone()));
            false
        }
        // Many attributes from the API.
        1 => {
            let n = *r.pick(&[20, 70, 300]);
            for i in 0..n {
                let ctx = *r.pick(&[ANYWHERE, API_ONLY, API_OR_HEADER, API_OR_BODY]);
                plan.clients[0].cfg.attrs.push(Attr { name: format!("many-{i}"), val: Val::Str(i.to_string()), ctx });
            }
            false
        }
        // Many nested parses, or deeply nested ones.
        2 if prop == "C07" => {
            let i = parses[r.below(parses.len())];
            let Op::Parse { parse, .. } = &mut ops[i] else { return false };
            let Some(n) = parse.nests.first().cloned() else { return false };
            if r.chance(1, 2) {
                let k = *r.pick(&[6, 12, 24]);
                for j in 0..k {
                    parse.nests.push(Nest { nth: j, ..n.clone() });
                }
            } else {
                let mut x = n;
                x.parse.nests.clear();
                x.nth = 0;
                let one = x.clone();
                for _ in 0..*r.pick(&[4, 8, 12]) {
                    let mut y = one.clone();
                    y.parse.nests.push(x);
                    x = y;
                }
                parse.nests = vec![x];
            }
            false
        }
        2 => false,
        // Many copies of a part of a text, or a long line.
        k => {
            let texts = plan.texts().len();
            let which = r.below(texts + plan.files.len());
            let lines = *r.pick(&[10, 70, 130, 270, 600, 1100]);
            let chars = *r.pick(&[130, 260, 520, 1030, 4100]);
            let huge = matches!(prop.as_str(), "C01" | "C02" | "C13") && r.chance(1, 12);
            let (a, b) = (r.next() as usize, r.next() as usize);
            let mut i = 0;
            plan.each_text(&mut |t| {
                i += 1;
                if i != which + 1 || t.chunks.is_empty() {
                    return;
                }
                let c = a % t.chunks.len();
                let l: usize = t.chunks[c].iter().map(|l| l.len() + 1).sum();
                if k < 5 {
                    let mut n = lines.min(30_000 / l.max(1));
                    let mut chunk = t.chunks[c].clone();
                    if huge {
                        chunk = vec![String::new()];
                        n = 66_000;
                    }
                    t.chunks.splice(c..c, std::iter::repeat_n(chunk, n));
                } else if let Some(m) = b.checked_rem(t.chunks[c].len()) {
                    if matches!(prop.as_str(), "C05" | "C09" | "C10" | "C11") {
                        for line in t.chunks.iter_mut().flatten() {
                            if r.chance(1, 4) {
                                let ends: Vec<usize> = line.char_indices().map(|x| x.0).chain([line.len()]).collect();
                                line.insert_str(ends[r.below(ends.len())], &"x".repeat(chars));
                            }
                        }
                        return;
                    }
                    let line = &mut t.chunks[c][m];
                    if !line.is_empty() && !line.starts_with([':', '[']) && !line.starts_with("include::") {
                        let part = format!(" {line}");
                        let n = chars / part.len().max(1);
                        (0..n).for_each(|_| line.push_str(&part));
                    }
                }
            });
            k < 5
        }
    }
}

/// Words that a repetition may vary.
const MARKED: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "Omega", "zeta9", "word", "words", "role", "Alt", "alt", "heart", "pic", "foo", "bar", "para", "title",
    "text", "idx", "Ref", "span", "code", "bold", "mark", "Sec", "Sub", "App", "Title", "Doc", "Kim", "Ann", "final", "remark", "anc2", "anc3",
    "org", "com", "one", "two", "esc", "lit", "raw", "mono", "Example", "id0", "id1", "value", "long", "several", "style", "key", "png", "Mail",
];
const AUTHORS: &[&str] = &[
    "Ann B Lee <ann@x.org>", "Ann", "Bo Kim", "Bo {aa} Kim", "Cy <K> & D", "{aa} {bb}", "{author}", "{aa}", "\u{c9}lise \u{e9}. \u{65e5}\u{672c} <e@x>", "\u{1d11e}",
    "D_E F_G", "R&D", "'Q' O'N", "Ann B Lee <ann@x.org> x", "Z {nosuch}", "*b* _i_ `m`", "Bo <bo@x.org>", "{cc} <{dd-e}@x.org>", "Jo (C) -- x", "a b c d", "",
    "\u{df} \u{130}i", "Ann <http://x.org>",
];
const REVISIONS: &[&str] = &[
    "v1.0, 2024-01-02: final", "1.0", "v{aa}", "v1, {bb}", "2024-01-02", ", 2024", "v1.{aa}, d <x>: r & {bb}", "v1:", "vx, 1: 2: 3", "\u{65e5}1.0, \u{e9}: \u{1d11e}",
    "v.1.", "1.x,", ":r", "v9, 2020-01-01:",
];
const ATTR_PARTS: &[&str] = &[
    "opts=inline", "opts=interactive", "options=\"a,b\"", "%header", "%a%b", "format=svg", "size=2x", "flip=vertical", "rotate=90",
    "width=100", "height=\"5%\"", "link=self", "link=u.html", "window=_blank", "window=\"x y\"", "fallback=f.png", "title=\"T < t\"", "role=r1 r2",
    "role=\"a b\"", "float=left", "align=center", "caption=C", "reftext=R", "alt=\"A \\\" b\"", "alt", "100", "200", "2x", "id=i", "#i", ".r", ".r.s#t%o",
    "subs=normal", "subs=\"+q,-m\"", "subs=none", "subs=verbatim", "subs=\"quotes+\"", "subs=macros", "subs=post_replacements", "subs=callouts",
    "subs=\"c,q,a,r,m,p\"", "subs=", "subs=x+", "nofollow", "rel=x", "opts=nofollow", "opts=\"nofollow,x\"", "encoded=1", "key=", "=v", "\"q\"", "'s'",
    "\"open", "'open", "\"a\"b", "", " ", "{aa}", "a={aa}", "\u{e9}=\u{65e5}", "a^", "^", "x^,y", "Subject,Body", "a=b=c", "k=\"v\" x", "style", "quote",
    "verse", "discrete", "appendix", "source", "abstract", "listing", "literal", "comment", "open", "pass", "stem", "NOTE", "&", "<", "]", "\\]",
];
const MACRO_TARGETS: &[&str] = &[
    "x.svg", "a/b.svg", "x.svgz", "x.png", "pic.svg?q=1", "http://h/x.png", "data:x", "//h/x", "/root/y", "../up/z.png", "a/../../b", "./c", "c:\\w\\x.png",
    "{aa}", "{nosuch}.svg", "with space.png", "with_under.svg", "\u{e9}.png", "heart", "a.b", "a@b.c", "x", "", " lead", "trail ", "self", "x:y", "#frag",
    "a.adoc#f", "ftp://f", "file:///e", "irc:i", "<x>", "a&b", "*b*.png", "x?y=z;w", "a+b", "%20",
];
const INLINE: &[&str] = &[
    "+a < b+", "+x ++y & z++ w+", "++u <v>++", "+++<b>raw</b>+++", "pass:q[*s* <t>]", "pass:a,q[_e_ {aa}]",
    "[x-]+mono {aa}+", "[.r]+lit+", "[x-]`raw`", "`+lit {aa}+`", "$$d<e>$$", "\\++esc++", "[.r1]++a +b+ c++", "pass:[x]",
    "+p pass:q[*n*] q+", "*bold {bb}*", "_em `code` x_", "**b**old", "#mark#", "[.role]#span#", "[#sid]#span#", "x^2^ ~3~",
    "\"`dq`\"", "'`sq`'", "(C) -- it's ...", "a -> b <= c", "image:in.png[Alt {aa},100,role=r]", "image:{aa}.png[]", "icon:heart[2x]",
    "icon:tip[size=3x,link=u]", "link:t.html[text {aa}]", "link:u[*b*,role=x]", "https://x.org/a?b=c[text^]", "https://y.org", "mailto:a@b.c[Mail]",
    "a@b.org", "[[anc2]]", "anchor:anc3[Ref]", "<<id1>>", "{aa} {bb}", "{cc}", "\\{aa}", "\u{e9}\u{65e5}", "(((idx)))", "a < b > c & d",
    "&copy; &#167;", "\\*no*", "<i>", "{sp}x{empty}", "video::v[]", "one +", "word",
    "\\[x-]++a {aa}++", "[x-]++b {aa} *s*++", "[r x-]++*c*++", "\\\\[r]++d++", "[r]\\++e++", "[r]\\+f+", "[x-]\\+g+", "[r x-]+h {aa}+", "[r]\\`i`",
    "\\[r]+j+", "\\[x-]`k`", "[r x-]`l *m*`", "[r]`n`", "\\+o+", "\\\\+p+", "\\`q`", "[x-]\\`r`", "\\[.r]*x*", "\\[.r]#x#", "\\[.r]##x##", "\\##y##",
    "\\http://x.org", "\\link:a[b]", "(http://x.org)", "(http://x.org);", "http://x.org:", "http://x.org;", "<http://x.org>", "\\<http://x.org>",
    "<\\http://x.org>", "http://x.org[]", "http://x.org>", "link:u[]", "link:http://x.org[]", "\\[[a]]", "\\anchor:a[b]", "\\a@b.org", "x:a@b.c",
    "/a@b.c", "http://x.org/?q[a=b,c]", "link:x[a=b]", "link:x[\"q, r\",role=s]", "http://x.org[a\\]b]", "\\image:x[]", "\\icon:x[]", "icon:x[flip=v,title=T]",
    "icon:x[rotate=90,width=1,height=2,title=T]", "image:a/../../b.png[]", "image:/r/../../b.png[]", "image:./c//d.png[]", "\u{96}7\u{97}",
    "\\(C) \\-- \\... \\-> \\'", "\\pass:[x]", "\\+++x+++", "\\$$x$$", "\\^x^ \\~y~", "\\\"`z`\"", "[[\u{e9}.x]]", "[[1x]]", "[[a,]]", "[[:b,c]d]]",
];
const SOUP_LINES: &[&str] = &[
    ":aa: \u{96}0\u{97}", ":bb: {aa}\u{96}1\u{97}", "pass:a[{aa}] +++{bb}+++", "+\u{96}0\u{97}+ `+\u{96}2\u{97}+`", ":aa: {bb}{aa}{aa}{bb}", ":bb: x{aa}{aa} {bb}", ":aa: start",
    "= Title", "== S", "=== SS", "==== S3", "====== deep", "[appendix]", "[[foo]]", "[#id.role%opt]",
    "[foo=bar,\"x y\",z]", ".title", "* item", "** n", ". one", "term:: def", "----", "====", "****", "____", "--",
    "++++", "....", "|===", "////", "// c", "\u{a0}", "\u{2028}", "\u{3000} ", "\u{c}", "[[[x]]]", "[[a,b]", "[ [x] ]", "[a='{aa}',\"{aa}\"]", ":author: Ann B Lee <ann@x.org>", ":author: {aa} Q", ":Author: R",
    "[subs=\"normal,-quotes\"]", "[subs=\"verbatim,+quotes\"]", "[subs=\"n,v\"]", "[subs=\"attributes+,+macros,-callouts\"]", "[subs=\"quotes,+macros,-quotes\"]", "[normal]",
    "audio::x.mp3[opts=loop]", "image::x", "image:::[x]", "image::a b[]", "video: :x[]", ":hide-uri-scheme:", ":icons: image", ":a: b", ":a!:", ":!a:", ":sectnums:", ":hardbreaks:", ":c: x \\",
    "cont \\", "+", "", "", "", "", "para *bold* _it_ `m` #h# ^s^ ~s~", "**b**__i__``m``##h##",
    "image:x.png[alt,100]", "image::y.png[a]", "image:[x]", "video::v.mp4[]", "audio::a[]", "icon:heart[2x]",
    "link:http://x[t]", "link:ab[t^]", "http://e.com[x^,role=q]", "mailto:a@b[x]", "a@b.com", "<<foo>>",
    "xref:foo[x]", "anchor:x[y]", "[[x,y]]t", "(C) (R) (TM) -- ... -> => <- <=", "it's a'b", "a--b -- c",
    "{a} {foo} {sp}", "\\{a} \\*b*", "pass:q[*x*] +++x+++ ++y++ +z+", "stem:[x]", "footnote:[x]", "if",
    "ifdef::a[]", "endif::[]", "include::x[]", "[quote, a, b]", "[verse]", "[source,rust]", "[listing]",
    "[literal]", "[discrete]", "NOTE: x", "[NOTE]", "<1> callout", "x <1>", "\"`q`\" '`s`'",
    "\u{e9} \u{fc} \u{1d11e} \u{65e5}\u{672c}", "line +", "  indented", "\tx", "[subs=\"+quotes,-callouts\"]",
    "[subs=attributes+]", "[subs=bogus]", "!!", "'''", "<<<", "kbd:[x] btn:[y] menu:a[b]", "<a&b>", "\u{a0}x",
    "[.role]#x# [#i]*y*", "[[bar]]", "a [[b]] c [[[d]]]", "[%hardbreaks]", "Ann B. Lee <a@b.c>; Bo",
    "v1.0, 2020-01-01: remark", "1.0", "---", "***", "- - -", "[[id,a \"b\" c]]", "[[]]", "[,]", "[a=\"b\"", "[a='b',{c}]",
    ".", "..", "...", ". ", "* ", "==", "= ", "=", "== \u{65e5} == ", "// ", "//", "///", ":", "::", ":a", ":a b: c",
    "latexmath:[x] asciimath:[y]", "*un closed _x", "[role=\"a b\"]#x#", "a +\nb +\nc", "http://x.y/z?q=a&b=c#d[t,window=_blank]",
    "\\http://x.y \\image:a[] \\link:b[] \\[[c]]", "(((a,b))) ((c))", "&#167; &amp; &copy;", "$$x$$ \\$$y$$",
];
const SOUP_TOKENS: &[&str] = &[
    "*", "_", "`", "#", "^", "~", "[", "]", "{", "}", "(", ")", "\\", "'", "\"", "+", "-", "--", "...", "<", ">", "&",
    "a", "b", " ", "\n", "::", ":", "image:", "link:", "http://", "icon:", "pass:", "\u{e9}", "\u{65e5}", "\u{1d11e}", "=", ".",
    "|", "@", "[[", "]]", "<<", ">>", ",", "%", "\"`", "`\"", "'`", "`'", "\u{a0}", "\t", "\r", "$$", "++", "+++", "**", "__",
    "``", "##", "mailto:", "{a}", "{counter:x}", "{set:x:y}", "\u{0}", "/", "?", "!", ";", "\u{96}", "0", "\u{200b}", "xref:", "anchor:",
    "\u{96}0\u{97}", "\u{96}1\u{97}", "+\u{96}0\u{97}+", ":+a", " a", "pass:a[", "\u{97}",
];
