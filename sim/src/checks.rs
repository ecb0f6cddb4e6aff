//! The oracles: what a recorded execution must satisfy, per property.

use crate::model::{self, Store};
use crate::plan::*;
use crate::rng::{Rng, hash, mix};
use crate::sys::Death;
use crate::world::{self, Call, Obs, Trace};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

fn violation(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.to_string(), detail })
}

/// What one judged plan covered.
#[derive(Default)]
pub struct Covered {
    pub runs: u64,
    pub parses: u64,
    pub callbacks: u64,
    pub steps: u64,
    pub switches: u64,
    pub blocked: u64,
    pub faults: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    /// Hashes of distinct histories (or interleavings).
    pub hashes: Vec<u64>,
    pub nontrivial: bool,
}

impl Covered {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_default() += n;
        }
    }
    fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max {k}")).or_default();
        *e = (*e).max(n);
    }
    fn obs(&mut self, o: &Obs) {
        self.parses += 1;
        self.callbacks += o.calls.len() as u64;
        for f in &o.fired {
            *self.faults.entry(f.clone()).or_default() += 1;
        }
        for n in &o.nested {
            self.obs(n);
        }
    }
    fn trace(&mut self, t: &Trace) {
        self.runs += 1;
        self.steps += t.steps;
        self.switches += t.switches;
        self.blocked += t.blocked;
        for o in t.clients.iter().flatten() {
            self.obs(o);
        }
    }
}

fn run(p: &Plan, cov: &mut Covered) -> Result<Trace, Death> {
    let t = world::run(p, false);
    match &t {
        Ok(t) => cov.trace(t),
        Err(_) => cov.runs += 1,
    }
    t
}

fn run_ref(p: &Plan, cov: &mut Covered) -> Result<Trace, Death> {
    cov.count("reference executions", 1);
    world::run(p, false)
}

fn trace_hash(t: &Trace) -> u64 {
    let mut h = t.path;
    for o in t.clients.iter().flatten() {
        h = mix(h ^ hash(o.result().as_bytes()));
        for n in &o.nested {
            h = mix(h ^ hash(n.result().as_bytes()));
        }
    }
    h
}

type Ctx = BTreeMap<String, u8>;

fn cfg_ctx(c: &Cfg) -> Ctx {
    c.attrs.iter().map(|a| (remap(&a.name), a.ctx)).collect()
}

/// Each parse of a client with the restrictions in effect before it.
fn parses(c: &Client) -> Vec<(usize, &ParseOp, Ctx)> {
    let mut slots: Vec<Option<Ctx>> = vec![None; 4];
    let mut out = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        match o {
            Op::New { p } => slots[*p] = Some(cfg_ctx(&c.cfg)),
            Op::Drop { p } => slots[*p] = None,
            Op::Clone { p, q } => slots[*q] = slots[*p].clone(),
            Op::Set { p, attr } => {
                if let Some(s) = &mut slots[*p] {
                    s.insert(remap(&attr.name), attr.ctx);
                }
            }
            Op::Parse { p, parse } => {
                if let Some(s) = &slots[*p] {
                    out.push((i, parse, s.clone()));
                }
            }
        }
    }
    out
}

/// A plan in which a new parser with the given attribute values makes one parse.
fn fresh(plan: &Plan, cfg: &Cfg, before: &str, ctx: &Ctx, parse: &ParseOp, universe: &[String]) -> Option<Plan> {
    let st = Store::from_snapshot(before, universe, ctx)?;
    let mut p = plan.clone();
    p.prop = "reference".into();
    p.names = universe.to_vec();
    p.envs = vec![];
    p.switches = vec![];
    p.env.cold = false;
    p.env.warmups = 0;
    p.env.attr_order = 0;
    p.clients = vec![Client {
        cfg: Cfg { attrs: st.to_attrs(), ..cfg.clone() },
        ops: vec![Op::New { p: 0 }, Op::Parse { p: 0, parse: parse.clone() }],
    }];
    Some(p)
}

fn clip(s: &str) -> String {
    let t: String = s.chars().take(160).collect();
    format!("{t:?}")
}

/// First difference between two observed parses.
fn difference(a: &Obs, b: &Obs) -> String {
    if a.panic != b.panic {
        return format!("outcome {:?} instead of {:?}", a.panic, b.panic);
    }
    for (i, (x, y)) in a.calls.iter().zip(&b.calls).enumerate() {
        if x != y {
            return format!("callback {i} was {} instead of {}", clip(&call(x)), clip(&call(y)));
        }
    }
    if a.calls.len() != b.calls.len() {
        return format!("{} callbacks instead of {}", a.calls.len(), b.calls.len());
    }
    if a.text != b.text {
        return format!("document text {} instead of {}", clip(&a.text), clip(&b.text));
    }
    for (x, y) in a.rendered.iter().zip(&b.rendered) {
        if x != y {
            return format!("rendered {} instead of {}", clip(&x.1), clip(&y.1));
        }
    }
    if a.warnings != b.warnings {
        return format!("warnings {} instead of {}", clip(&format!("{:?}", a.warnings)), clip(&format!("{:?}", b.warnings)));
    }
    if a.map != b.map {
        return "another source map".into();
    }
    if a.doc_hash != b.doc_hash {
        return "another document (structure, numbering, ids, positions or catalog)".into();
    }
    if a.after != b.after {
        return format!("attribute values afterwards differ: {}", snapshot_difference(&a.after, &b.after, &[]));
    }
    "another result".into()
}

fn snapshot_difference(a: &str, b: &str, names: &[String]) -> String {
    for (i, (x, y)) in a.split('\u{1e}').zip(b.split('\u{1e}')).enumerate() {
        if x != y {
            let n = names.get(i).map_or(format!("#{i}"), |n| n.clone());
            return format!("{n} is {} instead of {}", clip(x), clip(y));
        }
    }
    "different attributes".into()
}

fn call(c: &Call) -> String {
    if c.site == INC {
        format!("include of {:?} from {:?} [{}]", c.what, c.source, c.attrlist)
    } else {
        c.what.clone()
    }
}

/// Compares an observed parse with that of a new parser in a process of its own.
#[allow(clippy::too_many_arguments)]
fn against_fresh(
    plan: &Plan,
    cfg: &Cfg,
    ctx: &Ctx,
    parse: &ParseOp,
    o: &Obs,
    universe: &[String],
    what: &str,
    cov: &mut Covered,
) -> Option<Violation> {
    let p = fresh(plan, cfg, &o.before, ctx, parse, universe)?;
    match run_ref(&p, cov) {
        Ok(t) => {
            let r = t.clients.first()?.first()?;
            if r.before != o.before {
                // Values that no configuration can produce; not comparable.
                cov.count("not comparable", 1);
                return None;
            }
            cov.count("compared with a new parser", 1);
            if r.result() != o.result() {
                return violation("differs", format!("{what}: {}", difference(o, r)));
            }
            None
        }
        Err(Death::CpuLimit) => None,
        Err(d) => {
            cov.count("reference died", 1);
            violation("differs", format!("{what}: returned, but with a new parser: {}", d.describe()))
        }
    }
}

/// The run died: is that due to the history (rather than to one document)?
fn death_by_history(plan: &Plan, d: &Death, cov: &mut Covered) -> Option<Violation> {
    cov.count("executions that died", 1);
    if *d == Death::CpuLimit && plan.clients.len() > 1 {
        return None;
    }
    let universe = plan.universe();
    for (ci, c) in plan.clients.iter().enumerate() {
        for (op, parse, ctx) in parses(c) {
            // State just before this operation, from a run that stops there.
            let mut p = plan.clone();
            p.names = universe.clone();
            p.clients = vec![c.clone()];
            p.clients[0].ops.truncate(op + 1);
            if run_ref(&p, cov).is_ok() {
                continue;
            }
            p.clients[0].ops.truncate(op);
            let slot = match &c.ops[op] {
                Op::Parse { p, .. } => *p,
                _ => 0,
            };
            // An empty parse shows the attribute values.
            p.clients[0].ops.push(Op::Parse { p: slot, parse: ParseOp::default() });
            let before = match run_ref(&p, cov) {
                Ok(t) => t.clients[0].last().map(|o| o.before.clone())?,
                Err(_) => return None,
            };
            let f = fresh(plan, &c.cfg, &before, &ctx, parse, &universe)?;
            if run_ref(&f, cov).is_ok() {
                return violation(
                    "dies",
                    format!("client {ci} step {op}: {}; a new parser parses the same document", d.describe()),
                );
            }
            return None;
        }
    }
    None
}

fn uninjected(o: &Obs) -> Option<&String> {
    o.panic.as_ref().filter(|p| *p != "injected")
}

fn doc_lines(text: &str) -> Vec<&str> {
    text.split('\n').map(|l| l.trim_end_matches('\r')).collect()
}

// ------------------------------------------------------------------ C01, C02, C03

fn storage_checks(plan: &Plan, which: &str, cov: &mut Covered) -> Option<Violation> {
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(d) => {
            return if which == "C01" {
                violation("dies", format!("parsing does not produce a document: {}", d.describe()))
            } else {
                None
            };
        }
    };
    cov.hashes.push(trace_hash(&t));
    let universe = plan.universe();
    for (c, obs) in plan.clients.iter().zip(&t.clients) {
        let all = parses(c);
        for o in obs {
            let (_, parse, ctx) = all.iter().find(|x| x.0 == o.op)?;
            let Some(st) = Store::from_snapshot(&o.before, &universe, ctx) else { continue };
            let a = model::assemble(&plan.files, &parse.faults, plan.reads, &c.cfg, &universe, st, &parse.main());
            cov.count("storage requests", a.requests.len() as u64);
            cov.count("unresolved directives", a.unresolved as u64);
            cov.count("attribute entries followed", a.entries as u64);
            cov.count("directives beyond the depth limit", a.cut as u64);
            cov.count("assembled lines", a.lines.len() as u64);
            cov.max("include depth", a.depth as u64);
            if !a.requests.is_empty() || a.unresolved > 0 {
                cov.nontrivial = true;
            }
            let v = match which {
                "C01" => same_text(o, &a),
                "C02" => same_map(o, &a),
                _ => same_requests(o, &a, &universe).or_else(|| same_values(o, &a, &universe, cov)),
            };
            if let Some(mut v) = v {
                v.detail = format!("step {}: {}", o.op, v.detail);
                return Some(v);
            }
        }
    }
    None
}

fn same_text(o: &Obs, a: &model::Assembly) -> Option<Violation> {
    if let Some(p) = uninjected(o) {
        return violation("panics", format!("parsing does not produce a document: {p}"));
    }
    let whole: Vec<&str> = a.lines.iter().map(|l| l.text.trim_end_matches('\r')).collect();
    let whole = whole.join("\n");
    let want = doc_lines(whole.trim_end());
    let got = doc_lines(&o.text);
    let n = want.len().max(got.len());
    for i in 0..n {
        let (w, g) = (want.get(i), got.get(i));
        let last = i + 1 == n;
        let same = match (w, g) {
            (Some(w), Some(g)) if last => w.trim_end() == g.trim_end(),
            (w, g) => w == g,
        };
        if !same {
            let f = a.lines.get(i).map_or(String::new(), |l| format!(" ({:?} line {})", l.file, l.line));
            return violation("text", format!("document line {} is {:?}, should be {:?}{f}", i + 1, g, w));
        }
    }
    None
}

fn same_map(o: &Obs, a: &model::Assembly) -> Option<Violation> {
    if o.panic.is_some() {
        return None;
    }
    let got = doc_lines(&o.text);
    for (i, (m, w)) in o.map.iter().zip(&a.lines).enumerate() {
        if got[i].trim_end() != w.text.trim_end() {
            // Not the text it should be; that is for C01.
            return None;
        }
        if m.0 != w.file || m.1 != w.line {
            return violation(
                "map",
                format!(
                    "document line {} {:?} maps to {:?} line {}, but was read from {:?} line {}",
                    i + 1,
                    w.text,
                    m.0,
                    m.1,
                    w.file,
                    w.line
                ),
            );
        }
    }
    None
}

const IMPLIED: &[&str] = &[
    "doctitle", "author", "authors", "firstname", "middlename", "lastname", "authorinitials", "email", "revnumber",
    "revdate", "revremark",
];

/// The values that include targets see are those that the document assigns: when
/// all is read they are the same.
fn same_values(o: &Obs, a: &model::Assembly, universe: &[String], cov: &mut Covered) -> Option<Violation> {
    if o.panic.is_some() {
        return None;
    }
    // (Known findings: entries next to lines that only the block structure explains.)
    let mut above: Option<&model::Line> = None;
    for e in &a.lines {
        // (White space with tabs does not end what is above it.)
        if e.text.trim().is_empty() && e.text.contains('\t') {
            continue;
        }
        let Some(w) = above.replace(e) else { continue };
        let (l, e) = (&w.text, &e.text);
        let blocky = l.starts_with(['=', '#', '-', '.', '*', '_', '+', '/', '`', '[', '|', '>', '<', '\'']) || l.contains("::");
        // (Line ends are normalized, so that of "\r\r\n" the second parse sees "\r\n".)
        if a.continued || e.contains('\r') || e.starts_with(':') && blocky || VERBATIM.iter().any(|v| l.trim_end().starts_with(v)) {
            cov.count("final values left out", 1);
            return None;
        }
    }
    for ((n, w), g) in universe.iter().zip(a.last.split('\u{1e}')).zip(o.after.split('\u{1e}')) {
        if w != g && !IMPLIED.contains(&n.trim_end_matches(|c: char| c == '_' || c.is_ascii_digit())) {
            return violation(
                "values",
                format!("after the parse {n} is {}, but include targets were given {}", clip(g), clip(w)),
            );
        }
    }
    cov.count("final values compared", 1);
    None
}

const VERBATIM: &[&str] = &["----", "....", "////", "++++", "```", "====", "****", "____", "--"];

/// How the library reports a simple attribute list; None if it is not simple.
fn simple_list(l: &str) -> Option<String> {
    if !l.chars().all(|c| c.is_ascii_alphanumeric() || "=,._-".contains(c)) {
        return None;
    }
    if l.is_empty() {
        return Some(String::new());
    }
    let mut s = String::new();
    for e in l.split(',') {
        if e.is_empty() || e.starts_with('=') || e.ends_with('=') || e.starts_with(['.', '-']) {
            return None;
        }
        s.push_str(e);
        s.push('\u{1f}');
    }
    Some(s)
}

fn same_requests(o: &Obs, a: &model::Assembly, universe: &[String]) -> Option<Violation> {
    if uninjected(o).is_some() {
        return None;
    }
    let got: Vec<&Call> = o.calls.iter().filter(|c| c.site == INC).collect();
    for i in 0..got.len().max(a.requests.len()) {
        match (got.get(i), a.requests.get(i)) {
            (Some(g), Some(w)) => {
                let at = format!("request {i}");
                if g.what != w.target {
                    return violation("target", format!("{at} is for {:?}, should be for {:?}", g.what, w.target));
                }
                if g.source != w.source {
                    return violation(
                        "source",
                        format!("{at} for {:?} names {:?} as including file, should be {:?}", g.what, g.source, w.source),
                    );
                }
                if let Some(l) = simple_list(&w.attrlist)
                    && l != g.attrlist
                {
                    return violation(
                        "attribute list",
                        format!("{at} for {:?} has attribute list {:?}, should be {:?}", g.what, g.attrlist, w.attrlist),
                    );
                }
                if g.attrs.as_ref() != Some(&w.attrs) {
                    return violation(
                        "attributes",
                        format!(
                            "{at} for {:?}: {}",
                            g.what,
                            snapshot_difference(g.attrs.as_deref().unwrap_or(""), &w.attrs, universe)
                        ),
                    );
                }
            }
            (Some(g), None) => {
                return violation("extra", format!("unexpected request {i} for {:?} from {:?}", g.what, g.source));
            }
            (None, Some(w)) => {
                return violation("absent", format!("storage was not asked for {:?} (request {i})", w.target));
            }
            _ => {}
        }
    }
    None
}

// ------------------------------------------------------------------ C04

fn locks(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(d) => return death_by_history(plan, &d, cov),
    };
    cov.hashes.push(trace_hash(&t));
    let universe = plan.universe();
    for (c, obs) in plan.clients.iter().zip(&t.clients) {
        let all = parses(c);
        for o in obs {
            let (_, _, ctx) = all.iter().find(|x| x.0 == o.op)?;
            let Some(st) = Store::from_snapshot(&o.before, &universe, ctx) else { continue };
            if o.panic.is_some() {
                continue;
            }
            if let Some(mut v) = story(o, c.cfg.renderer == 1, st, &universe, cov) {
                v.detail = format!("step {}: {}", o.op, v.detail);
                return Some(v);
            }
        }
    }
    None
}

/// Rendered text without the line breaks and address links that the text's own
/// content causes.
fn plain(s: &str) -> String {
    let mut out = s.replace("<br>\n", "\n").replace("</a>", "");
    while let Some(i) = out.find("<a href=\"mailto:") {
        let Some(e) = out[i..].find("\">") else { break };
        out.replace_range(i..i + e + 2, "");
    }
    out
}

fn story(o: &Obs, recording: bool, st: Store, universe: &[String], cov: &mut Covered) -> Option<Violation> {
    let Some(s) = model::follow(&o.text, st, universe) else {
        cov.count("documents outside the structured grammar", 1);
        return None;
    };
    cov.count("documents followed", 1);
    cov.count("permitted assignments", s.permitted as u64);
    cov.count("forbidden entries", s.forbidden.len() as u64);
    cov.count("points observed", s.probes.len() as u64);
    if s.permitted > 0 || !s.forbidden.is_empty() {
        cov.nontrivial = true;
    }
    // Rendered texts.
    let is_probe = |k: &str, t: &str| match k {
        "doctitle" | "section" => true,
        "title" => t.starts_with('T'),
        _ => t.starts_with('P'),
    };
    let got: Vec<&(String, String)> = o.rendered.iter().filter(|x| is_probe(&x.0, &x.1)).collect();
    let mut images = o.calls.iter().filter(|c| c.site == REN && c.what.starts_with("image I"));
    for (i, p) in s.probes.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return violation("rendered", format!("no rendered text for {:?}", p.text));
        };
        let (shown, want) = (plain(&g.1), p.text.split('\n'));
        let same = shown.split('\n').count() == want.clone().count()
            && shown.split('\n').zip(want).all(|(x, y)| match y.split_once("image:") {
                Some((y, _)) if !p.images.is_empty() => x.starts_with(y),
                _ => x == y,
            });
        if g.0 != p.kind || !same {
            return violation("rendered", format!("rendered {} {:?}, should be {} {:?}", g.0, g.1, p.kind, p.text));
        }
        // What the renderer saw through the parser it was given.
        for n in p.images.iter().filter(|_| recording) {
            let mark = format!("image I{n}.png");
            let Some(c) = images.next() else {
                return violation("callback", format!("the renderer was not asked for the image in {:?}", p.text));
            };
            if !c.what.starts_with(&mark) {
                return violation("callback", format!("the renderer was asked for {} where it should render {:?}", c.what, p.text));
            }
            cov.count("callback snapshots", 1);
            if c.attrs.as_ref() != Some(&p.attrs) {
                return violation(
                    "callback",
                    format!(
                        "the renderer of {:?} sees: {}",
                        p.text,
                        snapshot_difference(c.attrs.as_deref().unwrap_or(""), &p.attrs, universe)
                    ),
                );
            }
        }
    }
    if got.len() > s.probes.len() {
        return violation("rendered", format!("unexpected rendered text {:?}", got[s.probes.len()].1));
    }
    if o.after != s.last {
        return violation("after", format!("after the parse {}", snapshot_difference(&o.after, &s.last, universe)));
    }
    // Exactly one warning per forbidden entry.
    let mut want: Vec<(usize, String, String)> =
        s.forbidden.iter().map(|(n, l, t)| (*l, n.clone(), t.clone())).collect();
    for (w, (line, text)) in &o.warnings {
        let Some(n) = w.strip_prefix("WarningType::AttributeValueIsLocked(\"").and_then(|x| x.strip_suffix("\")")) else { continue };
        let first = text.split('\n').next().unwrap_or("").trim_end();
        match want.iter().position(|x| x.0 == *line && x.1 == n.to_lowercase() && x.2.trim_end() == first) {
            Some(i) => {
                want.remove(i);
            }
            None => {
                return violation("warnings", format!("unexpected warning that {n} is locked at line {line} {first:?}"));
            }
        }
    }
    if let Some(x) = want.first() {
        return violation("warnings", format!("no warning for the forbidden entry at line {} {:?}", x.0, x.2));
    }
    None
}

// ------------------------------------------------------------------ C05, C06, C12

fn histories(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(d) => return death_by_history(plan, &d, cov),
    };
    cov.hashes.push(trace_hash(&t));
    let universe = plan.universe();
    for (c, obs) in plan.clients.iter().zip(&t.clients) {
        let all = parses(c);
        let mut crashed = false;
        let mut faulted = false;
        for (k, o) in obs.iter().enumerate() {
            let (_, parse, ctx) = all.iter().find(|x| x.0 == o.op)?;
            let relevant = match plan.prop.as_str() {
                "C06" => crashed,
                "C12" => faulted && parse.faults.is_empty(),
                _ => k > 0,
            };
            if relevant {
                cov.nontrivial = true;
                let what = format!("step {} on parser {}", o.op, o.p);
                if let Some(v) = against_fresh(plan, &c.cfg, ctx, parse, o, &universe, &what, cov) {
                    return Some(v);
                }
            }
            if plan.prop == "C06" && o.panic.as_deref() == Some("injected") {
                cov.count("crashes", 1);
                if let Some(v) = crash_state(plan, c, ctx, parse, o, &universe, cov) {
                    return Some(v);
                }
            }
            crashed |= o.panic.as_deref() == Some("injected");
            faulted |= !o.fired.is_empty();
        }
    }
    None
}

/// Attribute values left by a parse that a callback interrupted.
fn crash_state(
    plan: &Plan,
    c: &Client,
    ctx: &Ctx,
    parse: &ParseOp,
    o: &Obs,
    universe: &[String],
    cov: &mut Covered,
) -> Option<Violation> {
    let in_include = o.calls.last().is_some_and(|c| c.site == INC);
    if in_include {
        cov.count("crashes in include handler", 1);
        if o.after != o.before {
            return violation(
                "crash state",
                format!(
                    "step {}: the include handler panicked, and {} (before the parse)",
                    o.op,
                    snapshot_difference(&o.after, &o.before, universe)
                ),
            );
        }
        return None;
    }
    let st = Store::from_snapshot(&o.before, universe, ctx)?;
    let a = model::assemble(&plan.files, &parse.faults, plan.reads, &c.cfg, universe, st.clone(), &parse.main());
    let text: Vec<&str> = a.lines.iter().map(|l| l.text.trim_end_matches('\r')).collect();
    let s = model::follow(text.join("\n").trim_end(), st, universe)?;
    cov.count("crash states compared with the model", 1);
    if !s.states.contains(&o.after) {
        let want = s.states.last().cloned().unwrap_or_default();
        return violation(
            "crash state",
            format!(
                "step {}: the renderer panicked, and the attribute values left are not those of any prefix of the document's assignments; compared with all of them, {}",
                o.op,
                snapshot_difference(&o.after, &want, universe)
            ),
        );
    }
    None
}

// ------------------------------------------------------------------ C07

fn strip(p: &mut ParseOp) {
    p.nests.clear();
}

fn nested(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let universe = plan.universe();
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(Death::Deadlock) => {
            // (With one thread, nothing else can end the wait.)
            let mut bare = plan.clone();
            bare.names = universe;
            for c in &mut bare.clients {
                for o in &mut c.ops {
                    if let Op::Parse { parse, .. } = o {
                        strip(parse);
                    }
                }
            }
            return match run_ref(&bare, cov) {
                Ok(_) => violation("dies", format!("when callbacks parse: {}", Death::Deadlock.describe())),
                Err(d) => death_by_history(&bare, &d, cov),
            };
        }
        Err(d) => return death_by_history(plan, &d, cov),
    };
    cov.hashes.push(trace_hash(&t));
    // The same without nested parses.
    let mut bare = plan.clone();
    bare.names = universe.clone();
    for c in &mut bare.clients {
        for o in &mut c.ops {
            if let Op::Parse { parse, .. } = o {
                strip(parse);
            }
        }
    }
    let b = run_ref(&bare, cov).ok()?;
    for (ci, (c, obs)) in plan.clients.iter().zip(&t.clients).enumerate() {
        let all = parses(c);
        for (k, o) in obs.iter().enumerate() {
            let r = b.clients.get(ci)?.get(k)?;
            let some = !o.nested.is_empty();
            cov.nontrivial |= some;
            if o.result() != r.result() {
                return violation("outer", format!("step {} changes when callbacks parse: {}", o.op, difference(o, r)));
            }
            let (_, parse, ctx) = all.iter().find(|x| x.0 == o.op)?;
            if let Some(v) = nested_obs(plan, c, ctx, parse, o, &universe, cov) {
                return Some(v);
            }
        }
    }
    None
}

fn nested_obs(
    plan: &Plan,
    c: &Client,
    ctx: &Ctx,
    parse: &ParseOp,
    o: &Obs,
    universe: &[String],
    cov: &mut Covered,
) -> Option<Violation> {
    for n in &o.nested {
        let spec = &parse.nests[n.nest];
        let nctx = if n.own { cfg_ctx(&c.cfg) } else { ctx.clone() };
        cov.count(if n.own { "nested parses with an own parser" } else { "nested parses with a clone" }, 1);
        cov.max("nesting of parses", n.depth as u64);
        let what = format!(
            "step {} nested parse in {} callback {} at depth {}",
            o.op,
            if n.site == INC { "include" } else { "render" },
            spec.nth,
            n.depth
        );
        if let Some(mut v) = against_fresh(plan, &c.cfg, &nctx, &spec.parse, n, universe, &what, cov) {
            v.class = "nested".into();
            return Some(v);
        }
        if let Some(v) = nested_obs(plan, c, &nctx, &spec.parse, n, universe, cov) {
            return Some(v);
        }
    }
    None
}

// ------------------------------------------------------------------ C08

/// Each client alone.
fn solo(plan: &Plan, cov: &mut Covered) -> Option<Vec<Vec<String>>> {
    let universe = plan.universe();
    let mut out = vec![];
    for c in &plan.clients {
        let mut p = plan.clone();
        p.prop = "reference".into();
        p.names = universe.clone();
        p.clients = vec![c.clone()];
        p.switches = vec![];
        p.env.cold = false;
        p.env.thread = 1;
        let t = run_ref(&p, cov).ok()?;
        out.push(t.clients[0].iter().map(|o| o.result()).collect());
    }
    Some(out)
}

/// Where threads can be interrupted: the steps of each, places that between them
/// cover the parts of the library that the plan uses, and places right after
/// the library's atomic operations.
type Places = (Vec<u64>, Vec<u64>, Vec<u64>);

fn concurrent_once(plan: &Plan, alone: &[Vec<String>], cov: &mut Covered) -> (Option<Violation>, Places) {
    let none = Places::default;
    match run(plan, cov) {
        Err(d) => (violation("dies", format!("with {} clients: {}", plan.clients.len(), d.describe())), none()),
        Ok(t) => {
            cov.hashes.push(trace_hash(&t));
            cov.nontrivial |= t.switches > 0;
            for (i, (a, b)) in t.clients.iter().zip(alone).enumerate() {
                for (k, o) in a.iter().enumerate() {
                    if b.get(k) != Some(&o.result()) {
                        return (
                            violation(
                                "differs",
                                format!("client {i} step {} gives another result than the same client alone", o.op),
                            ),
                            none(),
                        );
                    }
                }
                if a.len() != b.len() {
                    return (violation("differs", format!("client {i} made {} parses, alone {}", a.len(), b.len())), none());
                }
            }
            (None, (t.lens, t.points, t.syncs))
        }
    }
}

fn concurrent(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let alone = solo(plan, cov)?;
    concurrent_once(plan, &alone, cov).0
}

/// A set of clients under several schedules; the violating plan, if any.
pub fn explore_schedules(plan: &Plan, schedules: usize, cov: &mut Covered) -> Option<(Plan, Violation)> {
    let alone = solo(plan, cov)?;
    let mut p = plan.clone();
    p.switches.clear();
    let (v, (lens, points, syncs)) = concurrent_once(&p, &alone, cov);
    if let Some(v) = v {
        return Some((p, v));
    }
    let mut r = Rng::new(plan.seed ^ 0x5c4ed);
    for k in 0..schedules {
        // Some runs with few switches, some with many.
        let n = match k % 4 {
            0 => r.range(1, 3),
            1 => r.range(3, 12),
            2 => r.range(12, 60),
            _ => r.range(60, 400),
        };
        let mut q = plan.clone();
        for _ in 0..n {
            let at = if !syncs.is_empty() && r.chance(1, 2) {
                // What other threads may see.
                *r.pick(&syncs)
            } else if !points.is_empty() && r.chance(2, 3) {
                // Some part of the library, however seldom it runs.
                *r.pick(&points) + r.below(3) as u64
            } else {
                let t = r.below(lens.len().max(1));
                let len = lens.get(t).copied().unwrap_or(0);
                crate::sched::at(t, 1 + r.below((len.max(10) + len / 4) as usize) as u64)
            };
            q.switches.push((at, r.below(3) as u64));
        }
        q.switches.sort();
        q.switches.dedup_by_key(|x| x.0);
        q.env.hash_seed = r.next() >> 16;
        if let (Some(v), _) = concurrent_once(&q, &alone, cov) {
            return Some((q, v));
        }
    }
    None
}

// ------------------------------------------------------------------ C09

fn environments(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let universe = plan.universe();
    let mut base = plan.clone();
    base.envs.clear();
    base.names = universe;
    let first = run(&base, cov);
    let mut others = vec![("again".to_string(), base.clone())];
    for (i, e) in plan.envs.iter().enumerate() {
        let mut p = base.clone();
        p.env = e.clone();
        others.push((format!("environment {i} {}", describe_env(e)), p));
    }
    for (what, p) in others {
        let t = run(&p, cov);
        cov.count(if p.env.cold { "cold process environments" } else { "warm process environments" }, 1);
        match (&first, &t) {
            (Ok(a), Ok(b)) => {
                cov.nontrivial = true;
                for (x, y) in a.clients.iter().flatten().zip(b.clients.iter().flatten()) {
                    if x.before != y.before {
                        return violation("differs", format!("{what}: attribute values before step {} differ: {}", x.op, snapshot_difference(&y.before, &x.before, &base.names)));
                    }
                    if x.result() != y.result() || x.text != y.text || x.warnings != y.warnings {
                        return violation("differs", format!("{what}: step {}: {}", x.op, difference(y, x)));
                    }
                }
                if a.clients.iter().flatten().count() != b.clients.iter().flatten().count() {
                    return violation("differs", format!("{what}: another number of parses"));
                }
            }
            (Err(a), Err(b)) if a == b => {}
            (Err(Death::CpuLimit), _) | (_, Err(Death::CpuLimit)) => {}
            (a, b) => {
                let d = |r: &Result<Trace, Death>| match r {
                    Ok(_) => "returned".to_string(),
                    Err(d) => d.describe(),
                };
                return violation("differs", format!("{what}: {} instead of {}", d(b), d(a)));
            }
        }
    }
    if let Ok(a) = &first {
        cov.hashes.push(trace_hash(a));
    }
    None
}

fn describe_env(e: &Env) -> String {
    format!(
        "(hash seed {:x}, heap seed {:x}, configuration order {:x}, {}, {} parses before, thread {})",
        e.hash_seed,
        e.heap_seed,
        e.attr_order,
        if e.cold { "cold" } else { "warm" },
        e.warmups,
        e.thread
    )
}

// ------------------------------------------------------------------ C10

fn robust(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(d) => return violation("dies", d.describe()),
    };
    cov.hashes.push(trace_hash(&t));
    for o in t.clients.iter().flatten() {
        if let Some(p) = uninjected(o) {
            return violation("panics", format!("step {}: {p}", o.op));
        }
        if let Some(b) = &o.bad_pos {
            return violation("position", format!("step {}: {b}", o.op));
        }
        cov.count("blocks", o.blocks as u64);
        cov.count("warnings", o.warnings.len() as u64);
        cov.nontrivial |= !o.fired.is_empty();
        cov.nontrivial |= o.blocks > 0;
    }
    None
}

// ------------------------------------------------------------------ C13

/// Each document assembled from storage against its own text parsed as one file.
fn transparent(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(d) => return death_by_history(plan, &d, cov),
    };
    cov.hashes.push(trace_hash(&t));
    let universe = plan.universe();
    for (c, obs) in plan.clients.iter().zip(&t.clients) {
        let all = parses(c);
        for o in obs {
            let (_, parse, ctx) = all.iter().find(|x| x.0 == o.op)?;
            if o.panic.is_some() || o.text.contains('\r') || o.calls.iter().all(|c| c.site != INC) {
                continue;
            }
            // The document's own text is trimmed at its end, so take what was assembled.
            let st = Store::from_snapshot(&o.before, &universe, ctx)?;
            let a = model::assemble(&plan.files, &parse.faults, plan.reads, &c.cfg, &universe, st, &parse.main());
            let lines: Vec<String> = a.lines.iter().map(|l| l.text.clone()).collect();
            if lines.join("\n").trim_end() != o.text.trim_end() || lines.iter().any(|l| l.contains('\r')) {
                cov.count("not comparable", 1);
                continue;
            }
            let doc = Text { chunks: vec![lines], eol: 0, open: false };
            let single = ParseOp { doc, faults: vec![], nests: vec![] };
            let p = fresh(plan, &c.cfg, &o.before, ctx, &single, &universe)?;
            let r = match run_ref(&p, cov) {
                Ok(t) => t.clients.into_iter().next()?.into_iter().next()?,
                Err(Death::CpuLimit) => continue,
                Err(d) => return violation("differs", format!("step {}: as one file: {}", o.op, d.describe())),
            };
            if r.before != o.before {
                cov.count("not comparable", 1);
                continue;
            }
            cov.count("assembled documents compared", 1);
            cov.nontrivial = true;
            if let Some(x) = r.calls.iter().find(|c| c.site == INC) {
                return violation("asks", format!("step {}: the assembled text still asks for {:?}", o.op, x.what));
            }
            let (mut a, mut b) = (o.clone(), r);
            for x in [&mut a, &mut b] {
                x.calls.retain(|c| c.site != INC);
                x.map.clear();
                x.doc_hash = x.body_hash;
            }
            // Values of attribute entries are rendered once more while includes are followed,
            // and so they may be for the single file if it looks like it had directives.
            if c.cfg.primary.is_none() && !format!("\n{}", o.text).contains("\ninclude::") && !format!("\n{}", o.text).contains("\nif") {
                let extra = a.calls.len().saturating_sub(b.calls.len());
                a.calls.drain(..extra);
            } else {
                a.calls.clear();
                b.calls.clear();
            }
            if a.result() != b.result() || a.text != b.text || a.warnings != b.warnings {
                return violation("differs", format!("step {}: assembled from storage: {} as one file", o.op, difference(&a, &b)));
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C11

fn stable(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    if !crate::world::document_is_send_and_sync() {
        return violation("not sendable", "a Document can no longer be moved to or read from other threads".into());
    }
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(d) => {
            // Does the history survive without looking at documents again?
            let mut p = plan.clone();
            p.prop = "reference".into();
            return match run_ref(&p, cov) {
                Ok(_) => violation("dies", format!("reading the documents later: {}", d.describe())),
                Err(_) => None,
            };
        }
    };
    cov.hashes.push(trace_hash(&t));
    let mut docs = 0;
    for o in t.clients.iter().flatten() {
        if let Some(u) = &o.unstable {
            return violation("changes", format!("the document of step {} {u}", o.op));
        }
        docs += o.panic.is_none() as u64;
    }
    cov.count("documents read again", docs);
    cov.nontrivial = docs > 0;
    None
}

// ------------------------------------------------------------------ C14

/// Memory in use after repetitions of a history.
fn steady(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    let t = match run(plan, cov) {
        Ok(t) => t,
        Err(_) => {
            // (A history that dies is the business of C10.)
            cov.count("executions that died", 1);
            return None;
        }
    };
    cov.hashes.push(trace_hash(&t));
    if t.clients.iter().flatten().any(|o| uninjected(o).is_some()) {
        return None;
    }
    if let Some(g) = t.growth.first() {
        return violation("grows", g.clone());
    }
    cov.count("histories repeated", t.clients.len() as u64);
    cov.nontrivial = t.clients.iter().flatten().any(|o| o.blocks > 0);
    None
}

// ------------------------------------------------------------------ C15

/// How often texts are repeated for the longer documents.
const TIMES: usize = 16;

/// `t`, `k` times, with different words where it is marked.
fn times(t: &Text, k: usize) -> Text {
    let mut out = t.clone();
    out.chunks.clear();
    for i in 0..k {
        let n = format!("{i:04}");
        out.chunks.extend(
            t.chunks.iter().map(|c| c.iter().map(|l| l.replace(crate::world::MARK, &n)).collect::<Vec<String>>()),
        );
    }
    out
}

fn copies(t: &Text) -> usize {
    // (An even number, so that what is opened in one copy is closed in another.)
    (3000 / t.render().len().max(1)).clamp(4, 400) / 4 * 4
}

/// What longer texts and repeated histories cost.
fn proportionate(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    if plan.seed % 4 == 3 {
        let t = run(plan, cov).ok()?;
        cov.hashes.push(trace_hash(&t));
        if t.clients.iter().flatten().any(|o| uninjected(o).is_some()) {
            return None;
        }
        if let Some(g) = t.growth.first() {
            return violation("slows", g.clone());
        }
        cov.count("histories repeated", t.clients.len() as u64);
        cov.nontrivial = t.clients.iter().flatten().any(|o| o.blocks > 0);
        return None;
    }
    let in_files = plan.seed % 4 == 2;
    let scaled = |k: usize| {
        let mut q = plan.clone();
        // (One file only. What one file leaves open could swallow another.)
        let one = plan.seed as usize / 4 % q.files.len().max(1);
        for (i, f) in q.files.iter_mut().enumerate() {
            for t in [&mut f.text, &mut f.old] {
                *t = times(t, if in_files && i == one { k * copies(t) } else { 1 });
            }
        }
        for op in q.clients.iter_mut().flat_map(|c| c.ops.iter_mut()) {
            if let Op::Parse { parse, .. } = op {
                parse.doc = times(&parse.doc, if in_files { 1 } else { k * copies(&parse.doc) });
            }
        }
        q
    };
    // What three lengths cost, per parse.
    let measure = |ks: &[usize], cov: &mut Covered| -> Option<Vec<Vec<Obs>>> {
        if in_files {
            ks.iter().map(|k| run(&scaled(*k), cov).ok().map(|t| t.clients.into_iter().flatten().collect())).collect()
        } else {
            let mut p = scaled(ks[0]);
            for k in &ks[1..] {
                p.clients.extend(scaled(*k).clients);
            }
            Some(run(&p, cov).ok()?.clients)
        }
    };
    let v = measure(&[1, TIMES], cov)?;
    cov.hashes.push(hash(format!("{:?}", v.iter().flatten().map(|o| (o.work, o.blocks, o.doc_hash)).collect::<Vec<_>>()).as_bytes()));
    let longest = |cov: &mut Covered| measure(&[1, TIMES, 4 * TIMES], cov);
    let t = TIMES as u64;
    for (i, (x, y)) in v[0].iter().zip(&v[1]).enumerate() {
        if uninjected(x).is_some() || uninjected(y).is_some() {
            return None;
        }
        let state = |o: &Obs| o.after.replace(|c: char| c.is_ascii_digit(), "0");
        if state(x) != state(y) || x.panic != y.panic {
            // (Values still grow, or the documents are different.)
            cov.count("not comparable", 1);
            return None;
        }
        cov.count("documents made longer", 1);
        cov.nontrivial |= y.blocks > 0;
        for (what, f, slack) in
            [("work", (|o: &Obs| o.work) as fn(&Obs) -> u64, 20_000), ("memory", |o: &Obs| o.bytes, 16 << 20)]
        {
            if f(y) <= f(x) * t * 5 / 4 + slack {
                continue;
            }
            // Does it go on like that? (Rather than be near a limit, or a table that is filled once.)
            cov.count("looked at four times as long", 1);
            let Some(w) = longest(cov) else { continue };
            let (a, b, c) = (f(&w[0][i]), f(&w[1][i]), f(&w[2][i]));
            if b > a * t * 5 / 4 + slack && c > b * 5 {
                let unit = if what == "work" { "basic blocks run" } else { "bytes allocated" };
                return violation(
                    what,
                    format!("step {}: {a} {unit}; for {t} times as much text: {b}; for {} times as much: {c}", x.op, 4 * t),
                );
            }
        }
    }
    None
}

// ------------------------------------------------------------------ all

pub fn judge(plan: &Plan, cov: &mut Covered) -> Option<Violation> {
    if let Some(want) = &plan.expect {
        return expected(plan, want);
    }
    match plan.prop.as_str() {
        "C01" | "C02" | "C03" => storage_checks(plan, &plan.prop, cov),
        "C04" => locks(plan, cov),
        "C05" | "C06" | "C12" => histories(plan, cov),
        "C07" => nested(plan, cov),
        "C13" => transparent(plan, cov),
        "C08" => concurrent(plan, cov),
        "C09" => environments(plan, cov),
        "C10" => robust(plan, cov),
        "C11" => stable(plan, cov),
        "C14" => steady(plan, cov),
        "C15" => proportionate(plan, cov),
        _ => None,
    }
}

/// Known findings: the exact targets that should be requested.
fn expected(plan: &Plan, want: &[String]) -> Option<Violation> {
    let t = world::run(plan, false).ok()?;
    let got: Vec<String> =
        t.clients.iter().flatten().flat_map(|o| &o.calls).filter(|c| c.site == INC).map(|c| c.what.clone()).collect();
    if got != want {
        return violation("target", format!("requested {got:?}, should be {want:?}"));
    }
    None
}

/// Executes the plan twice and compares everything observed.
pub fn repeatable(plan: &Plan) -> Option<String> {
    let (a, b) = (world::run(plan, false), world::run(plan, false));
    match (&a, &b) {
        (Ok(x), Ok(y)) if x != y => Some(format!("two executions of the plan with seed {} differ", plan.seed)),
        (Ok(_), Err(d)) | (Err(d), Ok(_)) => Some(d.describe()),
        _ => None,
    }
}

// ------------------------------------------------------------------ minimisation

/// Ways to make a plan smaller, larger steps first.
fn reductions(p: &Plan) -> Vec<Plan> {
    let mut out: Vec<Plan> = vec![];
    fn push(out: &mut Vec<Plan>, p: &Plan, f: &dyn Fn(&mut Plan)) {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            out.push(q);
        }
    }
    let min_clients = if p.prop == "C08" { 2 } else { 1 };
    if p.clients.len() > min_clients {
        for i in 0..p.clients.len() {
            push(&mut out, p, &|q| {
                q.clients.remove(i);
            });
        }
    }
    for k in [2, 4, 8] {
        let n = p.switches.len();
        if n >= k {
            for i in 0..k {
                push(&mut out, p, &|q| {
                    q.switches.drain(i * n / k..(i + 1) * n / k);
                });
            }
        }
    }
    if p.switches.len() < 16 {
        for i in 0..p.switches.len() {
            push(&mut out, p, &|q| {
                q.switches.remove(i);
            });
        }
    }
    for i in 0..p.envs.len() {
        push(&mut out, p, &|q| {
            q.envs.remove(i);
        });
    }
    push(&mut out, p, &|q| q.files.clear());
    for i in 0..p.files.len() {
        push(&mut out, p, &|q| {
            q.files.remove(i);
        });
    }
    for c in 0..p.clients.len() {
        for i in (0..p.clients[c].ops.len()).rev() {
            push(&mut out, p, &|q| {
                q.clients[c].ops.remove(i);
            });
        }
        push(&mut out, p, &|q| q.clients[c].cfg.attrs.clear());
        for i in 0..p.clients[c].cfg.attrs.len() {
            push(&mut out, p, &|q| {
                q.clients[c].cfg.attrs.remove(i);
            });
        }
        push(&mut out, p, &|q| q.clients[c].cfg.primary = None);
        push(&mut out, p, &|q| q.clients[c].cfg.renderer = 0);
        for i in 0..p.clients[c].ops.len() {
            if let Op::Parse { parse, .. } = &p.clients[c].ops[i] {
                for r in parse_reductions(parse) {
                    let mut q = p.clone();
                    if let Op::Parse { parse, .. } = &mut q.clients[c].ops[i] {
                        *parse = r;
                    }
                    out.push(q);
                }
            }
        }
    }
    for i in 0..p.files.len() {
        for t in text_reductions(&p.files[i].text) {
            let mut q = p.clone();
            q.files[i].text = t;
            out.push(q);
        }
        if p.files[i].old != Text::default() {
            let mut q = p.clone();
            q.files[i].old = Text::default();
            out.push(q);
        }
    }
    let mut q = p.clone();
    q.env = Env { cold: p.env.cold, hash_seed: p.env.hash_seed, ..Env::default() };
    if q != *p {
        out.push(q);
    }
    out
}

fn parse_reductions(p: &ParseOp) -> Vec<ParseOp> {
    let mut out = vec![];
    for i in 0..p.faults.len() {
        let mut q = p.clone();
        q.faults.remove(i);
        out.push(q);
    }
    for i in 0..p.nests.len() {
        let mut q = p.clone();
        q.nests.remove(i);
        out.push(q);
    }
    for t in text_reductions(&p.doc) {
        let mut q = p.clone();
        q.doc = t;
        out.push(q);
    }
    for i in 0..p.nests.len() {
        for r in parse_reductions(&p.nests[i].parse) {
            let mut q = p.clone();
            q.nests[i].parse = r;
            out.push(q);
        }
    }
    out
}

fn text_reductions(t: &Text) -> Vec<Text> {
    let mut out = vec![];
    let n = t.chunks.len();
    for k in [2usize, 4] {
        if n >= 2 * k {
            for i in 0..k {
                let mut q = t.clone();
                q.chunks.drain(i * n / k..(i + 1) * n / k);
                out.push(q);
            }
        }
    }
    if n <= 40 {
        for i in 0..n {
            let mut q = t.clone();
            q.chunks.remove(i);
            out.push(q);
        }
        for i in 0..n {
            if t.chunks[i].len() > 1 {
                for j in 0..t.chunks[i].len() {
                    let mut q = t.clone();
                    q.chunks[i].remove(j);
                    out.push(q);
                }
            }
        }
    }
    if t.eol != 0 {
        let mut q = t.clone();
        q.eol = 0;
        out.push(q);
    }
    if t.open {
        let mut q = t.clone();
        q.open = false;
        out.push(q);
    }
    // Characters of single-line texts.
    if n <= 4 {
        for i in 0..n {
            for j in 0..t.chunks[i].len() {
                let l: Vec<char> = t.chunks[i][j].chars().collect();
                if l.len() > 1 && l.len() <= 80 {
                    for k in [l.len() / 2, 4, 1] {
                        if k == 0 || k >= l.len() {
                            continue;
                        }
                        let mut a = 0;
                        while a < l.len() {
                            let mut q = t.clone();
                            q.chunks[i][j] =
                                l.iter().enumerate().filter(|(x, _)| *x < a || *x >= a + k).map(|(_, c)| *c).collect();
                            out.push(q);
                            a += k;
                        }
                    }
                }
            }
        }
    }
    out
}

/// Greedy minimisation: keeps any smaller plan that violates in the same way.
pub fn minimise(plan: &Plan, v: &Violation, budget_ms: u64) -> (Plan, Violation, u64) {
    let end = crate::sys::now_ms() + budget_ms;
    let mut cur = plan.clone();
    let mut cv = v.clone();
    let mut tried = 0;
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    'outer: loop {
        for q in reductions(&cur) {
            if crate::sys::now_ms() > end {
                break 'outer;
            }
            if !seen.insert(hash(crate::json::Js::to(&q).compact().as_bytes())) {
                continue;
            }
            tried += 1;
            let mut cov = Covered::default();
            if let Some(w) = judge(&q, &mut cov)
                && w.class == cv.class
            {
                cur = q;
                cv = w;
                continue 'outer;
            }
        }
        break;
    }
    (cur, cv, tried)
}

/// A short account of a plan.
pub fn summary(plan: &Plan) -> String {
    let mut s = String::new();
    for c in &plan.clients {
        for o in &c.ops {
            if let Op::Parse { p, parse } = o {
                s.push_str(&format!("parse on {p}: {:?}", parse.main().chars().take(200).collect::<String>()));
                for f in &parse.faults {
                    s.push_str(&format!(
                        " [{} {} {}]",
                        match f.site {
                            INC => "include",
                            REN => "render",
                            _ => "main",
                        },
                        f.nth,
                        f.kind.name()
                    ));
                }
                if !parse.nests.is_empty() {
                    s.push_str(&format!(" [{} nested]", parse.nests.len()));
                }
                s.push_str("; ");
            } else {
                s.push_str(match o {
                    Op::New { .. } => "new; ",
                    Op::Set { .. } => "set; ",
                    Op::Clone { .. } => "clone; ",
                    _ => "drop; ",
                });
            }
        }
        s.push_str("| ");
    }
    if !plan.switches.is_empty() {
        s.push_str(&format!("{} switches", plan.switches.len()));
    }
    s
}
