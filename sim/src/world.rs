//! The simulated world around the parser: include handler and renderer that
//! record every call and inject the plan's faults, and the client histories.

use crate::digest;

use crate::json::Js;
use crate::plan::*;
use crate::rng::{Rng, hash};
use crate::storage;
use crate::{sched, sys};
use asciidoc_parser::Parser;
use asciidoc_parser::attributes::Attrlist;
use asciidoc_parser::document::InterpretedValue;
use asciidoc_parser::parser::{
    CharacterReplacementType, HtmlSubstitutionRenderer, IconRenderParams, ImageRenderParams,
    IncludeFileHandler, InlineSubstitutionRenderer, LinkRenderParams, ModificationContext,
    QuoteScope, QuoteType, SpecialCharacter,
};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

/// A panic that the simulator injected.
struct Injected;

/// One callback made by the library.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub site: u8,
    pub source: Option<String>,
    /// Target of an include, or description of a rendering.
    pub what: String,
    pub attrlist: String,
    /// Attribute snapshot through the parser given to the callback.
    pub attrs: Option<String>,
}
js_struct!(Call { site, source, what, attrlist, attrs });

/// What was observed of one parse.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub op: usize,
    pub p: usize,
    /// 0 for a parse made by the client, more for a nested one.
    pub depth: usize,
    /// Which nested parse (position in the plan's list).
    pub nest: usize,
    pub own: bool,
    pub site: u8,
    pub before: String,
    pub after: String,
    /// None: the parse returned. Otherwise "injected" or the message.
    pub panic: Option<String>,
    pub doc_hash: u64,
    /// Everything but the source map.
    pub body_hash: u64,
    pub text: String,
    pub map: Vec<(Option<String>, usize)>,
    pub warnings: Vec<(String, (usize, String))>,
    pub rendered: Vec<(String, String)>,
    pub bad_pos: Option<String>,
    pub unstable: Option<String>,
    pub blocks: usize,
    /// Basic blocks of the library that the parse ran, without those of callbacks.
    pub work: u64,
    /// Bytes that the parse allocated (only where that is compared).
    pub bytes: u64,
    pub calls: Vec<Call>,
    pub fired: Vec<String>,
    pub nested: Vec<Obs>,
    /// Complete digest of the document (only on request).
    pub full: Option<String>,
}
js_struct!(Obs {
    op, p, depth, nest, own, site, before, after, panic, doc_hash, body_hash, text, map, warnings, rendered, bad_pos,
    unstable, blocks, work, bytes, calls, fired, nested, full
});

impl Obs {
    /// The result of the parse, as one comparable string.
    pub fn result(&self) -> String {
        let mut s = format!("{:?}|{:016x}|{}|", self.panic, self.doc_hash, self.after);
        for c in &self.calls {
            s.push_str(&format!("{c:?};"));
        }
        s
    }
}

struct Frame {
    faults: Vec<Fault>,
    nests: Vec<Nest>,
    depth: usize,
    inc: usize,
    ren: usize,
    calls: Vec<Call>,
    fired: Vec<String>,
    nested: Vec<Obs>,
}

#[derive(Clone, Copy)]
pub struct Options {
    /// Keep the complete digest of every document.
    pub full: bool,
    /// Documents are kept, and digested again at the end.
    pub keep: bool,
    /// Documents are moved to and read from other threads.
    pub threads: bool,
    /// Nothing is recorded.
    pub quiet: bool,
}

pub struct World {
    files: Vec<FileSpec>,
    universe: Vec<String>,
    frames: RefCell<Vec<Frame>>,
    opts: Options,
    cfg: Cfg,
    order: u64,
    reads: usize,
    /// Which repetition this is; the mark in texts is replaced by it.
    repetition: Cell<u32>,
    /// Whether what parses allocate is recorded.
    weighed: bool,
}

/// Stands for four digits that differ in every repetition of a history.
pub const MARK: char = '\u{e0ff}';

impl std::fmt::Debug for World {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("World")
    }
}

#[derive(Debug)]
struct Handler(Rc<World>);
#[derive(Debug)]
struct Recorder(Rc<World>, HtmlSubstitutionRenderer);

pub fn snapshot(p: &Parser, universe: &[String]) -> String {
    let mut s = String::new();
    for n in universe {
        let v = p.attribute_value(n);
        let has = p.has_attribute(n);
        let set = p.is_attribute_set(n);
        match (&v, has, set) {
            (InterpretedValue::Unset, false, false) => s.push('-'),
            (InterpretedValue::Unset, true, false) => s.push('u'),
            (InterpretedValue::Set, true, true) => s.push('s'),
            (InterpretedValue::Value(x), true, true) => {
                s.push('v');
                s.push_str(x);
            }
            _ => s.push_str(&format!("!{v:?} {has} {set}")),
        }
        s.push('\u{1e}');
    }
    s
}

pub fn ctx(c: u8) -> ModificationContext {
    match c {
        API_ONLY => ModificationContext::ApiOnly,
        API_OR_HEADER => ModificationContext::ApiOrHeader,
        API_OR_BODY => ModificationContext::ApiOrDocumentBody,
        _ => ModificationContext::Anywhere,
    }
}

fn set_attr(p: Parser, a: &Attr) -> Parser {
    match &a.val {
        Val::Str(s) => p.with_intrinsic_attribute(&a.name, s, ctx(a.ctx)),
        Val::Bool(b) => p.with_intrinsic_attribute_bool(&a.name, *b, ctx(a.ctx)),
    }
}

fn describe_attrlist(a: &Attrlist<'_>) -> String {
    // (The library ties the lifetime of what it returns to the list itself.)
    fn inner<'a>(a: &'a Attrlist<'a>) -> String {
        let mut s = String::new();
        for e in a.attributes() {
            if let Some(n) = e.name() {
                s.push_str(n);
                s.push('=');
            }
            s.push_str(e.value());
            s.push('\u{1f}');
        }
        s
    }
    inner(a)
}

impl World {
    pub fn new(plan: &Plan, cfg: &Cfg, opts: Options) -> Rc<World> {
        Rc::new(World {
            files: plan.files.clone(),
            universe: plan.universe(),
            frames: RefCell::new(vec![]),
            opts,
            cfg: cfg.clone(),
            order: plan.env.attr_order,
            reads: plan.reads,
            weighed: plan.prop == "C15",
            repetition: Cell::new(opts.quiet as u32),
        })
    }

    pub fn build(self: &Rc<Self>) -> Parser {
        let mut p = Parser::default();
        let c = &self.cfg;
        // Only the last setting of a name counts; the order of different names
        // must not matter.
        let mut ix: Vec<usize> = (0..c.attrs.len()).collect();
        if self.order != 0 {
            Rng::new(self.order).shuffle(&mut ix);
            ix.sort_by_key(|i| {
                let n = remap(&c.attrs[*i].name);
                c.attrs[..*i].iter().filter(|a| remap(&a.name) == n).count()
            });
        }
        let late = self.order != 0 && self.order % 2 == 0;
        if !late {
            for i in &ix {
                p = set_attr(p, &c.attrs[*i]);
            }
        }
        if let Some(n) = &c.primary {
            p = p.with_primary_file_name(n);
        }
        if c.handler {
            p = p.with_include_file_handler(Handler(self.clone()));
        }
        if c.renderer == 1 {
            p = p.with_inline_substitution_renderer(Recorder(self.clone(), HtmlSubstitutionRenderer {}));
        }
        if late {
            for i in &ix {
                p = set_attr(p, &c.attrs[*i]);
            }
        }
        p
    }

    fn unmark(&self, s: String) -> String {
        if s.contains(MARK) { s.replace(MARK, &format!("{:04}", self.repetition.get() % 10_000)) } else { s }
    }

    /// One parse, under observation.
    fn parse(
        self: &Rc<Self>,
        parser: &mut Parser,
        op: &ParseOp,
        depth: usize,
        kept: Option<&mut Vec<Kept>>,
    ) -> Obs {
        let quiet = self.repetition.get() > 0;
        let before = if quiet { String::new() } else { snapshot(parser, &self.universe) };
        self.frames.borrow_mut().push(Frame {
            faults: op.faults.clone(),
            nests: op.nests.clone(),
            depth,
            inc: 0,
            ren: 0,
            calls: vec![],
            fired: vec![],
            nested: vec![],
        });
        let source = self.unmark(op.main());
        for f in &op.faults {
            // The main document can be damaged too (before any call).
            if f.site == 2 && source != self.unmark(op.doc.render()) {
                let mut fr = self.frames.borrow_mut();
                fr.last_mut().unwrap().fired.push(format!("main {}", f.kind.name()));
            }
        }
        let tid = sys::TID.with(|t| {
            let x = t.get();
            if x < 0 {
                t.set(0);
            }
            x
        });
        let bytes = sys::BYTES.load(SeqCst);
        let work = sched::WORK.load(SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| parser.parse(&source)));
        let work = sched::WORK.load(SeqCst).wrapping_sub(work);
        let bytes = if self.weighed { sys::BYTES.load(SeqCst) - bytes } else { 0 };
        sys::TID.with(|t| t.set(tid));
        let fr = self.frames.borrow_mut().pop().unwrap();
        let mut o = Obs {
            op: 0,
            p: 0,
            depth,
            nest: 0,
            own: false,
            site: 0,
            before,
            after: if quiet { String::new() } else { snapshot(parser, &self.universe) },
            panic: None,
            doc_hash: 0,
            body_hash: 0,
            text: String::new(),
            map: vec![],
            warnings: vec![],
            rendered: vec![],
            bad_pos: None,
            unstable: None,
            blocks: 0,
            work,
            bytes,
            calls: fr.calls,
            fired: fr.fired,
            nested: fr.nested,
            full: None,
        };
        drop(source);
        match r {
            Err(e) => {
                o.panic = Some(if e.downcast_ref::<Injected>().is_some() {
                    "injected".to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    format!("panic: {s}")
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    format!("panic: {s}")
                } else {
                    "panic".to_string()
                });
            }
            Ok(_) if quiet => {}
            Ok(doc) if self.weighed => {
                // Every line is looked up, every block and warning visited.
                use asciidoc_parser::HasSpan;
                use asciidoc_parser::blocks::IsBlock;
                let work = sched::WORK.load(SeqCst);
                let n = doc.span().data().split('\n').count();
                for k in 1..=n {
                    let _ = doc.source_map().original_file_and_line(k);
                }
                fn visit(b: &asciidoc_parser::blocks::Block<'_>) -> usize {
                    let _ = (b.span().line(), b.id(), b.title().map(|t| t.len()), b.roles().len());
                    b.nested_blocks().map(|x| 1 + visit(x)).sum::<usize>()
                }
                o.blocks = doc.nested_blocks().map(|x| 1 + visit(x)).sum::<usize>();
                let _ = doc.warnings().map(|w| w.source.line()).sum::<usize>();
                o.work = o.work.wrapping_add(sched::WORK.load(SeqCst).wrapping_sub(work));
                o.doc_hash = n as u64 ^ (o.blocks as u64) << 32;
            }
            Ok(doc) => {
                let v = match catch_unwind(AssertUnwindSafe(|| digest::view(&doc))) {
                    Ok(v) => v,
                    Err(_) => {
                        o.panic = Some("panic: reading the document".into());
                        return o;
                    }
                };
                let s = doc.span();
                o.text = s.data().to_string();
                o.bad_pos = digest::check_positions(&v, s.data());
                let n = o.text.split('\n').count();
                for k in 1..=n {
                    o.map.push(match doc.source_map().original_file_and_line(k) {
                        Some(l) => (l.0, l.1),
                        None => (Some("<none>".into()), 0),
                    });
                }
                for w in doc.warnings() {
                    o.warnings.push((
                        format!("{:?}", w.warning),
                        (w.source.line(), w.source.data().to_string()),
                    ));
                }
                if let Some(i) = v.inconsistent {
                    o.unstable = Some(i);
                }
                o.doc_hash = hash(v.text.as_bytes());
                o.body_hash = hash(v.body.as_bytes());
                o.rendered = v.rendered;
                o.blocks = v.blocks;
                if self.opts.full {
                    o.full = Some(v.text);
                }
                if let Some(k) = kept {
                    k.push(Kept { doc: Some(Movable(doc)), hash: o.doc_hash });
                }
            }
        }
        o
    }

    fn nests(self: &Rc<Self>, site: u8, nth: usize, parser: Option<&Parser>) {
        let (nests, depth) = {
            let fr = self.frames.borrow();
            let f = fr.last().unwrap();
            (f.nests.clone(), f.depth)
        };
        for (i, n) in nests.iter().enumerate() {
            if n.site != site || n.nth != nth || depth >= 16 {
                continue;
            }
            let (own, mut p) = match parser {
                Some(p) if !n.own => (false, p.clone()),
                _ => (true, self.build()),
            };
            let mut o = self.parse(&mut p, &n.parse, depth + 1, None);
            o.nest = i;
            o.own = own;
            o.site = site;
            self.frames.borrow_mut().last_mut().unwrap().nested.push(o);
        }
    }

    fn fire(&self, site: u8, k: Kind) {
        let mut fr = self.frames.borrow_mut();
        let s = if site == INC { "include" } else { "render" };
        fr.last_mut().unwrap().fired.push(format!("{s} {}", k.name()));
    }

    fn rendering(self: &Rc<Self>, what: String, parser: Option<&Parser>) {
        let (nth, fault) = {
            let mut fr = self.frames.borrow_mut();
            let Some(f) = fr.last_mut() else { return };
            let nth = f.ren;
            f.ren += 1;
            if self.repetition.get() == 0 {
                f.calls.push(Call {
                    site: REN,
                    source: None,
                    what,
                    attrlist: String::new(),
                    attrs: parser.map(|p| snapshot(p, &self.universe)),
                });
            }
            (nth, storage::fault_at(&f.faults, REN, nth).cloned())
        };
        self.nests(REN, nth, parser);
        if let Some(f) = fault {
            match f.kind {
                Kind::Panic => {
                    self.fire(REN, f.kind);
                    panic_any(Injected)
                }
                Kind::Stall => {
                    self.fire(REN, f.kind);
                    sched::stall()
                }
                _ => {}
            }
        }
    }
}

/// What a callback does is not counted as work of the library.
struct Paused(u64);

impl Drop for Paused {
    fn drop(&mut self) {
        sched::WORK.store(self.0, SeqCst);
    }
}

impl IncludeFileHandler for Handler {
    fn resolve_target<'src>(
        &self,
        source: Option<&str>,
        target: &str,
        attrlist: &Attrlist<'src>,
        parser: &Parser,
    ) -> Option<String> {
        let w = &self.0;
        let _paused = Paused(sched::WORK.load(SeqCst));
        let (nth, fault, ans) = {
            let mut fr = w.frames.borrow_mut();
            let f = fr.last_mut()?;
            let nth = f.inc;
            f.inc += 1;
            if w.repetition.get() == 0 {
                f.calls.push(Call {
                    site: INC,
                    source: source.map(|s| s.to_string()),
                    what: target.to_string(),
                    attrlist: describe_attrlist(attrlist),
                    attrs: Some(snapshot(parser, &w.universe)),
                });
            }
            (
                nth,
                storage::fault_at(&f.faults, INC, nth).cloned(),
                storage::read(&w.files, &f.faults, w.reads, nth, source, target),
            )
        };
        if nth > 4 * w.reads + 100 {
            // Unreachable for a library that asks once per directive.
            return None;
        }
        w.nests(INC, nth, Some(parser));
        if let Some(k) = ans.fired {
            w.fire(INC, k);
        }
        if let Some(f) = fault {
            match f.kind {
                Kind::Panic => panic_any(Injected),
                Kind::Stall => sched::stall(),
                _ => {}
            }
        }
        ans.text.map(|t| w.unmark(t))
    }
}

impl InlineSubstitutionRenderer for Recorder {
    fn render_special_character(&self, type_: SpecialCharacter, dest: &mut String) {
        self.0.rendering(format!("special {type_:?}"), None);
        self.1.render_special_character(type_, dest)
    }
    fn render_quoted_substitition(
        &self,
        type_: QuoteType,
        scope: QuoteScope,
        attrlist: Option<Attrlist<'_>>,
        id: Option<String>,
        body: &str,
        dest: &mut String,
    ) {
        let a = attrlist.as_ref().map(describe_attrlist);
        self.0.rendering(format!("quote {type_:?} {scope:?} {a:?} {id:?} {body}"), None);
        self.1.render_quoted_substitition(type_, scope, attrlist, id, body, dest)
    }
    fn render_character_replacement(&self, type_: CharacterReplacementType, dest: &mut String) {
        self.0.rendering(format!("replacement {type_:?}"), None);
        self.1.render_character_replacement(type_, dest)
    }
    fn render_line_break(&self, dest: &mut String) {
        self.0.rendering("line break".into(), None);
        self.1.render_line_break(dest)
    }
    fn render_image(&self, p: &ImageRenderParams, dest: &mut String) {
        let a = describe_attrlist(p.attrlist);
        self.0.rendering(
            format!("image {} {:?} {:?} {:?} {a}", p.target, p.alt, p.width, p.height),
            Some(p.parser),
        );
        self.1.render_image(p, dest)
    }
    fn image_uri(&self, target: &str, parser: &Parser, key: Option<&str>) -> String {
        self.0.rendering(format!("image uri {target} {key:?}"), Some(parser));
        self.1.image_uri(target, parser, key)
    }
    fn render_icon(&self, p: &IconRenderParams, dest: &mut String) {
        let a = describe_attrlist(p.attrlist);
        self.0.rendering(format!("icon {} {:?} {:?} {a}", p.target, p.alt, p.size), Some(p.parser));
        self.1.render_icon(p, dest)
    }
    fn icon_uri(&self, name: &str, attrlist: &Attrlist, parser: &Parser) -> String {
        self.0.rendering(format!("icon uri {name}"), Some(parser));
        self.1.icon_uri(name, attrlist, parser)
    }
    fn render_link(&self, p: &LinkRenderParams, dest: &mut String) {
        let a = describe_attrlist(p.attrlist);
        self.0.rendering(
            format!("link {} {:?} {:?} {:?} {a}", p.target, p.link_text, p.extra_roles, p.window),
            Some(p.parser),
        );
        self.1.render_link(p, dest)
    }
    fn render_anchor(&self, id: &str, reftext: Option<String>, dest: &mut String) {
        self.0.rendering(format!("anchor {id} {reftext:?}"), None);
        self.1.render_anchor(id, reftext, dest)
    }
}

/// A document that may be sent to another thread.
pub struct Movable(pub asciidoc_parser::Document<'static>);
unsafe impl Send for Movable {}
unsafe impl Sync for Movable {}

pub struct Kept {
    pub doc: Option<Movable>,
    pub hash: u64,
}

fn digest_hash(d: &Movable) -> u64 {
    hash(digest::view(&d.0).text.as_bytes())
}

/// Runs the history of one client.
pub fn run_client(plan: &Plan, c: usize, opts: Options) -> Vec<Obs> {
    let client = &plan.clients[c];
    let keep = opts.keep;
    let threads = opts.threads;
    let w = World::new(plan, &client.cfg, opts);
    let mut slots: Vec<Option<Parser>> = (0..4).map(|_| None).collect();
    let mut out: Vec<Obs> = vec![];
    let mut kept: Vec<Kept> = vec![];
    let mut owner: Vec<usize> = vec![];
    for (i, op) in client.ops.iter().enumerate() {
        match op {
            Op::New { p } => slots[*p] = Some(w.build()),
            Op::Drop { p } => slots[*p] = None,
            Op::Clone { p, q } => {
                let c = slots[*p].clone();
                slots[*q] = c;
            }
            Op::Set { p, attr } => {
                if let Some(x) = slots[*p].take() {
                    slots[*p] = Some(set_attr(x, attr));
                }
            }
            Op::Parse { p, parse } => {
                if let Some(mut x) = slots[*p].take() {
                    let n = kept.len();
                    let mut o = w.parse(&mut x, parse, 0, if keep { Some(&mut kept) } else { None });
                    o.op = i;
                    o.p = *p;
                    slots[*p] = Some(x);
                    out.push(o);
                    if kept.len() > n {
                        owner.push(out.len() - 1);
                    }
                }
            }
        }
        if keep {
            // Earlier documents still read the same.
            for (k, d) in kept.iter().enumerate() {
                if let Some(doc) = &d.doc
                    && digest_hash(doc) != d.hash
                {
                    out[owner[k]].unstable.get_or_insert(format!("changed after step {i}"));
                }
            }
            // Some documents go away, and others come to lie where they were.
            let k = (plan.seed as usize).wrapping_mul(31).wrapping_add(i * 17) % 7;
            if k < 3 {
                let k = if k == 0 { Some(0) } else { kept.iter().rposition(|d| d.doc.is_some()) };
                if let Some(d) = k.and_then(|k| kept.get_mut(k)) {
                    d.doc = None;
                }
            }
        }
    }
    drop(slots);
    drop(w);
    if keep && threads {
        // Moved to another thread and read by two more while a third parses, under
        // the simulated scheduler.
        let texts: Vec<String> = plan.clients[c]
            .ops
            .iter()
            .filter_map(|o| match o {
                Op::Parse { parse, .. } => Some(parse.main()),
                _ => None,
            })
            .collect();
        let switches = plan.switches.clone();
        let (back, a, b) = std::thread::spawn(move || {
            sched::start(3, &switches);
            let (a, b) = std::thread::scope(|s| {
                let kept = &kept;
                let read = move |me: i32| -> Vec<u64> {
                    sched::enter(me);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        kept.iter().map(|d| d.doc.as_ref().map_or(0, digest_hash)).collect()
                    }));
                    sched::leave(me);
                    r.unwrap_or_default()
                };
                let x = s.spawn(move || read(0));
                let y = s.spawn(move || read(1));
                let texts = &texts;
                let z = s.spawn(move || {
                    sched::enter(2);
                    for t in texts {
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            digest::view(&Parser::default().parse(t)).blocks
                        }));
                    }
                    sched::leave(2);
                });
                sched::go();
                let _ = z.join();
                (x.join().unwrap_or_default(), y.join().unwrap_or_default())
            });
            (kept, a, b)
        })
        .join()
        .unwrap_or_default();
        kept = back;
        for (k, d) in kept.iter().enumerate() {
            if d.doc.is_some() && (a.get(k) != Some(&d.hash) || b.get(k) != Some(&d.hash)) {
                out[owner[k]].unstable.get_or_insert("reads differently on other threads".into());
            }
        }
    }
    if keep {
        for (k, d) in kept.iter().enumerate() {
            if let Some(doc) = &d.doc
                && digest_hash(doc) != d.hash
            {
                out[owner[k]].unstable.get_or_insert("changed after parser and handlers were dropped".into());
            }
        }
    }
    out
}

/// Runs the history of one client after it has been run before (so that what the
/// library builds once is there).
fn run_warm(plan: &Plan, c: usize) -> Vec<Obs> {
    let options = || Options { full: false, keep: false, threads: false, quiet: false };
    if c == 0 {
        let _ = run_client(plan, c, Options { quiet: true, ..options() });
    }
    let mut v = run_client(plan, c, options());
    for o in &mut v {
        o.calls.clear();
        o.nested.clear();
    }
    v
}

/// Repeats the history of one client: the work of each repetition.
fn work_again(plan: &Plan, c: usize, fresh: bool) -> (Vec<Vec<u64>>, bool) {
    let client = &plan.clients[c];
    let options = || Options { full: false, keep: false, threads: false, quiet: false };
    let mut w = World::new(plan, &client.cfg, options());
    let mut slots: Vec<Option<Parser>> = (0..4).map(|_| None).collect();
    let mut out = vec![];
    let mut state: Option<Vec<String>> = None;
    let mut steady = true;
    for k in 0..REPETITIONS {
        if fresh {
            slots.iter_mut().for_each(|x| *x = None);
            w = World::new(plan, &client.cfg, options());
        }
        w.repetition.set(if plan.seed % 8 < 4 { k as u32 + 1 } else { 1 });
        let mut work = vec![];
        for op in &client.ops {
            match op {
                Op::Parse { p, parse } => {
                    if let Some(x) = &mut slots[*p] {
                        work.push(w.parse(x, parse, 0, None).work);
                    }
                }
                _ if k > 0 && !fresh => {}
                Op::New { p } => slots[*p] = Some(w.build()),
                Op::Drop { p } => slots[*p] = None,
                Op::Clone { p, q } => {
                    let c = slots[*p].clone();
                    slots[*q] = c;
                }
                Op::Set { p, attr } => {
                    if let Some(x) = slots[*p].take() {
                        slots[*p] = Some(set_attr(x, attr));
                    }
                }
            }
        }
        out.push(work);
        if !fresh && k >= 4 {
            let s: Vec<String> = slots
                .iter()
                .flatten()
                .map(|p| snapshot(p, &w.universe).replace(|c: char| c.is_ascii_digit(), "0"))
                .collect();
            steady &= *state.get_or_insert_with(|| s.clone()) == s;
        }
    }
    (out, steady)
}

pub const REPETITIONS: usize = 40;

/// Whether repetitions late in a history cost more than early ones did.
fn slower(plan: &Plan, c: usize) -> (Vec<Obs>, Vec<String>) {
    let first = run_warm(plan, c);
    let mut out = vec![];
    for (fresh, what) in [(false, "the same parsers"), (true, "new parsers")] {
        let (work, steady) = work_again(plan, c, fresh);
        if !steady {
            continue;
        }
        for i in 0..work[0].len() {
            let v: Vec<u64> = work.iter().map(|w| w.get(i).copied().unwrap_or(0)).collect();
            let early = *v[4..12].iter().max().unwrap();
            let late = *v[REPETITIONS - 8..].iter().min().unwrap();
            if late > early + early / 200 + 100 {
                out.push(format!(
                    "parse {} of a history repeated with {what} took at most {early} basic blocks in repetitions 5 to 12 and at least {late} in {} to {}",
                    i + 1, REPETITIONS - 7, REPETITIONS
                ));
                break;
            }
        }
    }
    (first, out)
}

/// Runs the history of one client, then repeats it until what is in use after a
/// repetition stops growing: with parsers that live on, and with new ones.
fn run_again(plan: &Plan, c: usize) -> (Vec<Obs>, Vec<String>) {
    let client = &plan.clients[c];
    let options = || Options { full: false, keep: false, threads: false, quiet: false };
    let first = run_client(plan, c, options());
    let mut grown = vec![];
    let w = World::new(plan, &client.cfg, options());
    let mut slots: Vec<Option<Parser>> = (0..4).map(|_| None).collect();
    let history = |w: &Rc<World>, slots: &mut Vec<Option<Parser>>, all: bool| {
        for op in &client.ops {
            match op {
                Op::Parse { p, parse } => {
                    if let Some(x) = &mut slots[*p] {
                        w.parse(x, parse, 0, None);
                    }
                }
                _ if !all => {}
                Op::New { p } => slots[*p] = Some(w.build()),
                Op::Drop { p } => slots[*p] = None,
                Op::Clone { p, q } => {
                    let c = slots[*p].clone();
                    slots[*q] = c;
                }
                Op::Set { p, attr } => {
                    if let Some(x) = slots[*p].take() {
                        slots[*p] = Some(set_attr(x, attr));
                    }
                }
            }
        }
    };
    history(&w, &mut slots, true);
    if let Some(g) = growth(|k| {
        w.repetition.set(k);
        history(&w, &mut slots, false);
        slots.iter().flatten().map(|p| snapshot(p, &w.universe).replace(|c: char| c.is_ascii_digit(), "0")).collect()
    }) {
        grown.push(format!("parsers that are used again and again: {g}"));
    }
    drop(slots);
    drop(w);
    if let Some(g) = growth(|k| {
        let w = World::new(plan, &client.cfg, options());
        w.repetition.set(k);
        let mut slots: Vec<Option<Parser>> = (0..4).map(|_| None).collect();
        history(&w, &mut slots, true);
        String::new()
    }) {
        grown.push(format!("parsers and documents that were all dropped: {g}"));
    }
    (first, grown)
}

/// What is in use after 8, 16, 32, ... repetitions, if it never stops growing
/// while the attribute values (but for numbers in them) stay the same. (Values
/// that change without end are different text in every repetition, and the
/// regex engine's state tables grow with text up to a limit far away.)
fn growth(mut unit: impl FnMut(u32) -> String) -> Option<String> {
    const STAGES: [u32; 6] = [8, 16, 32, 64, 128, 256];
    let mut by = [0usize; 6];
    let mut last = (0, String::new());
    let mut k = 0;
    for (i, n) in STAGES.iter().enumerate() {
        let mut state = String::new();
        while k < *n {
            k += 1;
            state = unit(k);
        }
        let live = sys::LIVE.load(SeqCst);
        if i > 0 {
            if live <= last.0 || state != last.1 {
                return None;
            }
            by[i] = live - last.0;
        }
        last = (live, state);
    }
    Some(format!(
        "memory in use grew by {}, {}, {}, {} and {} bytes from 8 to 16, 32, 64, 128 and 256 repetitions of the history",
        by[1], by[2], by[3], by[4], by[5]
    ))
}

/// The complete observation of a plan.
#[derive(Clone, Debug, PartialEq)]
pub struct Trace {
    pub clients: Vec<Vec<Obs>>,
    pub steps: u64,
    pub switches: u64,
    pub blocked: u64,
    pub path: u64,
    /// Steps of each thread, and places in different parts of the library.
    pub lens: Vec<u64>,
    pub points: Vec<u64>,
    /// Places right after atomic operations.
    pub syncs: Vec<u64>,
    /// Memory that never stops growing when the plan is repeated.
    pub growth: Vec<String>,
}
js_struct!(Trace { clients, steps, switches, blocked, path, lens, points, syncs, growth });

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn warm_up() {
    let _ = std::thread::spawn(|| {
        let _ = catch_unwind(|| {
            let mut p = Parser::default();
            let d = p.parse(WARM);
            format!("{d:?}").len()
        });
    })
    .join();
}

const WARM: &str = "= Title\nAnn B. Lee <a@b.c>; Bo\nv1.0, 2020-01-01: remark\n:a: x{sp}y\n:b: \\\nz\n\n[[id,ref]]\n.title *b*\n[#i.r%o,k=\"v\"]\npara *bold* _it_ `m` #h# ^s^ ~s~ **b**__i__``m``##h## \"`q`\" '`s`' {a} it's (C) (R) (TM) -- a--b ... -> => <- <= &amp; <x> +\nimage:x.png[alt,100] icon:heart[2x] link:http://x[t] http://e.com[x^,role=q] a@b.com mailto:a@b[x] [[x,y]]t anchor:x[y] pass:q[*x*] +++x+++ ++y++ +z+ $$x$$ stem:[x] <<foo>> xref:foo[x]\n\n== S {a}\n\n----\nx\n----\n\n====\ny\n\n:c: d\n\n====\n\ninclude::none[x=y]\n\nimage::a.png[b]\n\n'''\n\n[appendix]\n== A\n\n* item\n\nNOTE: x\n\n[verse]\n____\nv\n____\n";

/// Executes a plan in this process. Called in a freshly forked child.
pub fn execute(plan: &Plan, full: bool) -> Trace {
    let e = &plan.env;
    sys::HASH_SEED.store(e.hash_seed, SeqCst);
    sys::HEAP_SEED.store(e.heap_seed, SeqCst);
    sys::CLOCK.store((1_600_000_000 + e.clock) * 1000, SeqCst);
    sys::CLOCK_ON.store(true, SeqCst);
    let keep = plan.prop == "C11";
    let plan2 = plan.clone();
    let body = move || -> Trace {
        for i in 0..plan2.env.warmups {
            let mut p = Parser::default();
            let _ = catch_unwind(AssertUnwindSafe(|| p.parse(WARM)));
            if i % 2 == 1 {
                let _ = catch_unwind(AssertUnwindSafe(|| p.parse("[appendix]\n== Title\n\n:a: b\n\n[[id]]\nx\n")));
            }
        }
        let n = plan2.clients.len();
        if plan2.prop == "C08" && n > 1 {
            if plan2.switches.is_empty() {
                sched::profile();
            }
            sched::start(n, &plan2.switches);
            let shared = std::sync::Arc::new(plan2.clone());
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let p = shared.clone();
                    std::thread::spawn(move || {
                        sched::enter(i as i32);
                        let o = catch_unwind(AssertUnwindSafe(|| {
                            run_client(&p, i, Options { full, keep: false, threads: false, quiet: false })
                        }));
                        sched::leave(i as i32);
                        o
                    })
                })
                .collect();
            sched::go();
            let mut clients = vec![];
            for h in hs {
                match h.join() {
                    Ok(Ok(o)) => clients.push(o),
                    Ok(Err(e)) => resume_unwind(e),
                    Err(e) => resume_unwind(e),
                }
            }
            let (lens, points, syncs) =
                if plan2.switches.is_empty() { sched::profiled(plan2.seed, 400) } else { Default::default() };
            Trace {
                clients,
                steps: sched::steps(),
                switches: sched::TAKEN.load(SeqCst),
                blocked: sched::BLOCKED.load(SeqCst),
                path: sched::PATH.load(SeqCst),
                lens,
                points,
                syncs,
                growth: vec![],
            }
        } else {
            let mut clients = vec![];
            let mut growth = vec![];
            for i in 0..n {
                if plan2.prop == "C14" {
                    let (o, g) = run_again(&plan2, i);
                    clients.push(o);
                    growth.extend(g);
                    continue;
                }
                if plan2.prop == "C15" {
                    if plan2.seed % 4 == 3 {
                        let (o, g) = slower(&plan2, i);
                        clients.push(o);
                        growth.extend(g);
                    } else {
                        clients.push(run_warm(&plan2, i));
                    }
                    continue;
                }
                clients.push(run_client(
                    &plan2,
                    i,
                    Options { full, keep, threads: keep && plan2.seed % 2 == 0, quiet: false },
                ));
            }
            Trace {
                clients,
                steps: sched::steps(),
                switches: sched::TAKEN.load(SeqCst),
                blocked: sched::BLOCKED.load(SeqCst),
                path: sched::PATH.load(SeqCst),
                lens: vec![],
                points: vec![],
                syncs: vec![],
                growth,
            }
        }
    };
    if e.thread == 0 {
        body()
    } else {
        std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap().join().unwrap()
    }
}

/// Repeated attribute snapshots are sent as a mark.
fn pack(o: &mut Obs, undo: bool) {
    let mut last: Option<String> = None;
    for c in &mut o.calls {
        let Some(a) = &mut c.attrs else { continue };
        if undo {
            if a == "\u{1}" {
                *a = last.clone().unwrap_or_default();
            }
            last = Some(a.clone());
        } else if last.as_ref() == Some(a) {
            *a = "\u{1}".into();
        } else {
            last = Some(a.clone());
        }
    }
    for n in &mut o.nested {
        pack(n, undo);
    }
}

fn encode(mut t: Trace) -> String {
    t.clients.iter_mut().flatten().for_each(|o| pack(o, false));
    t.to().compact()
}

static WARM_PROCESS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Initialises the library's lazily built statics in this process.
pub fn warm_process() {
    if !WARM_PROCESS.swap(true, SeqCst) {
        warm_up();
    }
}

/// What a process that was executed to run one plan does.
pub fn exec_main() -> ! {
    use std::io::{Read, Write};
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    let Some(plan) = crate::json::J::parse(&s).and_then(|j| Plan::read(&j)) else { sys::exit_now(9) };
    sys::limit_self(&sys::LIMITS);
    let t = encode(execute(&plan, false));
    sys::CLOCK_ON.store(false, SeqCst);
    let _ = std::io::stdout().write_all(t.as_bytes());
    let _ = std::io::stdout().flush();
    sys::exit_now(0)
}

/// Executes a plan in a process of its own: forked from this one, which has the
/// library's statics built, or newly started if the plan is for a cold library.
pub fn run(plan: &Plan, full: bool) -> Result<Trace, sys::Death> {
    let bytes = if plan.env.cold {
        sys::in_new_process(&plan.to().compact())?
    } else {
        warm_process();
        // (A history that is repeated takes longer.)
        let cpu_ms = sys::LIMITS.cpu_ms * if matches!(plan.prop.as_str(), "C14" | "C15") { 4 } else { 1 };
        sys::in_child(&sys::Limits { cpu_ms, ..sys::LIMITS }, || encode(execute(plan, full)).into_bytes())?
    };
    let s = String::from_utf8_lossy(&bytes);
    let j = crate::json::J::parse(&s).ok_or(sys::Death::Exit(0))?;
    let mut t = Trace::read(&j).ok_or(sys::Death::Exit(1))?;
    t.clients.iter_mut().flatten().for_each(|o| pack(o, true));
    Ok(t)
}

/// Whether the library's document type may be moved to and read from other
/// threads, decided without requiring it (so that a change is reported rather
/// than failing to build).
pub fn document_is_send_and_sync() -> bool {
    use std::marker::PhantomData;
    struct Probe<T>(PhantomData<T>);
    #[allow(dead_code)]
    trait No {
        fn answer(&self) -> bool {
            false
        }
    }
    impl<T> No for &Probe<T> {}
    impl<T: Send + Sync> Probe<T> {
        fn answer(&self) -> bool {
            true
        }
    }
    (&Probe::<asciidoc_parser::Document<'static>>(PhantomData)).answer()
}
