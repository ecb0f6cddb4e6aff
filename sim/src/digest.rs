//! Everything an observer can read from a document, as one string, and the
//! check that every source position in it addresses the document's text.

use asciidoc_parser::attributes::Attrlist;
use asciidoc_parser::blocks::{Block, IsBlock};
use asciidoc_parser::{Document, HasSpan, Span};
use std::fmt::Write;

/// A source position found in a document.
pub struct Pos {
    pub what: &'static str,
    pub data: String,
    pub offset: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Default)]
pub struct View {
    pub text: String,
    /// The same without the source map.
    pub body: String,
    pub positions: Vec<Pos>,
    /// Rendered texts in document order, with their kind.
    pub rendered: Vec<(String, String)>,
    pub blocks: usize,
    /// A query that was answered differently the second time.
    pub inconsistent: Option<String>,
}

/// Asks the same questions in ascending, descending and mixed order; the answers
/// must not depend on that.
fn ask<K: std::fmt::Debug>(v: &mut View, what: &str, keys: &[K], f: impl Fn(&K) -> String) -> Vec<String> {
    let n = keys.len();
    let first: Vec<String> = keys.iter().map(&f).collect();
    for i in (0..n).map(|i| (i * 7 + 3) % n).chain((0..n).rev()) {
        let again = f(&keys[i]);
        if again != first[i] && v.inconsistent.is_none() {
            v.inconsistent = Some(format!("answers {what} {:?} with {} and then with {again}", keys[i], first[i]));
        }
    }
    first
}

fn pos(v: &mut View, what: &'static str, s: Span<'_>) {
    v.positions.push(Pos {
        what,
        data: s.data().to_string(),
        offset: s.byte_offset(),
        line: s.line(),
        col: s.col(),
    });
    let _ = writeln!(v.text, " {what}@{}:{}:{}+{}", s.byte_offset(), s.line(), s.col(), s.data().len());
}

fn attrlist<'a>(v: &mut View, a: &'a Attrlist<'a>) {
    let _ = write!(v.text, " attrlist anchor={:?} id={:?} roles={:?} opts={:?} style={:?}",
        a.anchor(), a.id(), a.roles(), a.options(), a.block_style());
    for e in a.attributes() {
        let _ = write!(v.text, " [{:?}={:?} sh={:?} id={:?} roles={:?} opts={:?} style={:?}]",
            e.name(), e.value(), e.shorthand_items(), e.id(), e.roles(), e.options(), e.block_style());
    }
    // Queries by name and position.
    let mut names: Vec<&str> = a.attributes().filter_map(|e| e.name()).collect();
    names.extend(["role", "opts", "nosuch"]);
    names.dedup();
    for n in names {
        let _ = write!(v.text, " {n}={:?}", a.named_attribute(n).map(|e| e.value()));
    }
    for i in 0..=a.attributes().count() + 1 {
        let _ = write!(v.text, " {i}={:?} {:?}", a.nth_attribute(i).map(|e| e.value()),
            a.named_or_positional_attribute("role", i).map(|e| e.value()));
    }
    for o in a.options() {
        let _ = write!(v.text, " {o}:{}", a.has_option(o));
    }
    let _ = write!(v.text, " x:{}", a.has_option("hardbreaks"));
    v.text.push('\n');
}

fn block<'a>(v: &mut View, b: &'a Block<'a>, depth: usize) {
    v.blocks += 1;
    let _ = writeln!(v.text, "{depth} {:?} {:?} ctx={} raw={} style={:?} id={:?} roles={:?} opts={:?} title={:?} subs={:?}",
        std::mem::discriminant(b), b.content_model(), &*b.resolved_context(), &*b.raw_context(),
        b.declared_style(), b.id(), b.roles(), b.options(), b.title(), b.substitution_group());
    pos(v, "block", b.span());
    if let Some(s) = b.title_source() {
        pos(v, "block title", s);
    }
    if let Some(t) = b.title() {
        v.rendered.push(("title".into(), t.to_string()));
    }
    if let Some(s) = b.anchor() {
        pos(v, "anchor", s);
    }
    if let Some(s) = b.anchor_reftext() {
        pos(v, "anchor reference text", s);
    }
    if let Some(a) = b.attrlist() {
        pos(v, "attribute list", a.span());
        attrlist(v, a);
    }
    match b {
        Block::Simple(s) => {
            pos(v, "content", s.content().original());
            let _ = writeln!(v.text, " {:?} {} {:?}", s.style(), s.content().is_empty(), s.content().rendered());
        }
        Block::RawDelimited(s) => {
            pos(v, "content", s.content().original());
            let _ = writeln!(v.text, " {} {:?}", s.content().is_empty(), s.content().rendered());
        }
        Block::Media(m) => {
            let _ = writeln!(v.text, " media {:?}", m.type_());
            if let Some(t) = m.target() {
                pos(v, "media target", *t);
            }
            pos(v, "media attribute list", m.macro_attrlist().span());
            attrlist(v, m.macro_attrlist());
        }
        Block::Section(s) => {
            let _ = writeln!(v.text, " section level={} type={:?} number={:?} title={:?}",
                s.level(), s.section_type(), s.section_number().map(|n| format!("{n} {:?}", n.components())), s.section_title());
            pos(v, "section title", s.section_title_source());
            v.rendered.push(("section".into(), s.section_title().to_string()));
        }
        Block::DocumentAttribute(a) => {
            pos(v, "attribute name", *a.name());
            if let Some(r) = a.raw_value() {
                pos(v, "attribute value", r);
            }
            let _ = writeln!(v.text, " value {:?}", a.value());
        }
        Block::Break(k) => {
            let _ = writeln!(v.text, " break {:?}", k.type_());
        }
        _ => {}
    }
    if let Some(r) = b.rendered_content() {
        let _ = writeln!(v.text, " rendered {r:?}");
        v.rendered.push(("text".into(), r.to_string()));
    }
    for c in b.nested_blocks() {
        block(v, c, depth + 1);
    }
}

pub fn view(doc: &Document<'_>) -> View {
    let mut v = View::default();
    let h = doc.header();
    let _ = writeln!(v.text, "title={:?}", h.title());
    pos(&mut v, "header", h.span());
    if let Some(t) = h.title() {
        v.rendered.push(("doctitle".into(), t.to_string()));
    }
    if let Some(s) = h.title_source() {
        pos(&mut v, "document title", s);
    }
    for a in h.attributes() {
        pos(&mut v, "header attribute", a.span());
        pos(&mut v, "attribute name", *a.name());
        if let Some(r) = a.raw_value() {
            pos(&mut v, "attribute value", r);
        }
        let _ = writeln!(v.text, " value {:?}", a.value());
    }
    if let Some(l) = h.author_line() {
        pos(&mut v, "author line", l.span());
        for a in l.authors() {
            let _ = writeln!(v.text, " author {:?} {:?} {:?} {:?} {:?} {:?}",
                a.name(), a.firstname(), a.middlename(), a.lastname(), a.email(), a.initials());
        }
    }
    if let Some(l) = h.revision_line() {
        pos(&mut v, "revision line", l.span());
        let _ = writeln!(v.text, " rev {:?} {:?} {:?}", l.revnumber(), l.revdate(), l.revremark());
    }
    for c in h.comments() {
        pos(&mut v, "comment", *c);
    }
    for b in doc.nested_blocks() {
        block(&mut v, b, 1);
    }
    for w in doc.warnings() {
        pos(&mut v, "warning", w.source);
        let _ = writeln!(v.text, " {:?} {}", w.warning, w.warning);
    }
    // Ids and reference texts, looked up through the catalog in a fixed order.
    let cat = doc.catalog();
    let _ = writeln!(v.text, "catalog {}", cat.is_empty());
    let mut keys: Vec<String> = vec![];
    fn ids<'a>(b: &'a Block<'a>, out: &mut Vec<String>) {
        if let Some(i) = b.id() {
            out.push(i.to_string());
        }
        if let Some(t) = b.title() {
            out.push(t.to_string());
        }
        if let Some(t) = b.anchor_reftext() {
            out.push(t.data().to_string());
        }
        if let Block::Section(s) = b {
            out.push(s.section_title().to_string());
        }
        for c in b.nested_blocks() {
            ids(c, out);
        }
    }
    for b in doc.nested_blocks() {
        ids(b, &mut keys);
    }
    keys.sort();
    keys.dedup();
    keys.push("no such".into());
    keys.sort();
    keys.dedup();
    let answers = ask(&mut v, "catalog queries for", &keys, |k| {
        format!("{} {:?} -> {:?}", cat.contains_id(k), cat.get_ref(k), cat.resolve_id(k))
    });
    for (k, a) in keys.iter().zip(answers) {
        let _ = writeln!(v.text, " {k:?} {a}");
    }
    pos(&mut v, "document", doc.span());
    v.body = v.text.clone();
    let _ = writeln!(v.text, "map {:?}", doc.source_map());
    let lines: Vec<usize> = (1..=doc.span().data().split('\n').count() + 1).collect();
    let answers = ask(&mut v, "which file and line is line", &lines, |k| {
        format!("{:?}", doc.source_map().original_file_and_line(*k))
    });
    let _ = writeln!(v.text, "lines {answers:?}");
    let _ = write!(v.text, "{doc:?}");
    v
}

/// Checks that every recorded position addresses `text`, which may be longer
/// than the document's own (trimmed) text by white space at its end.
pub fn check_positions(v: &View, text: &str) -> Option<String> {
    let mut starts = vec![0usize];
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            starts.push(i + 1);
        }
    }
    for p in &v.positions {
        let bad = |why: &str| {
            Some(format!(
                "{} at offset {} line {} column {}: {why}: {:?}",
                p.what,
                p.offset,
                p.line,
                p.col,
                p.data.chars().take(40).collect::<String>()
            ))
        };
        if p.offset > text.len() {
            if p.data.trim().is_empty() {
                continue;
            }
            return bad("offset is beyond the document text");
        }
        if !text.is_char_boundary(p.offset) {
            return bad("offset is inside a character");
        }
        let rest = &text[p.offset..];
        if !rest.starts_with(&p.data) {
            let n = rest.len().min(p.data.len());
            let ok = p.data.is_char_boundary(n)
                && rest.len() < p.data.len()
                && p.data.starts_with(rest)
                && p.data[n..].trim().is_empty();
            if !ok {
                return bad("the document text there is different");
            }
        }
        let line = starts.partition_point(|s| *s <= p.offset);
        if line != p.line {
            return bad(&format!("is really on line {line}"));
        }
        let before = &text[starts[line - 1]..p.offset];
        let col = before.chars().count() + 1;
        if col != p.col {
            return bad(&format!("is really in column {col}"));
        }
    }
    None
}
