//! The spec coverage tool (S01): the real program runs against a generated
//! source tree, with the system calls by which it lists, reads and writes
//! behind the shim in shim/shim.c.

use crate::checks::{Covered, Violation};
use crate::json::J;
use crate::plan::Text;
use crate::rng::{Rng, hash};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq)]
pub struct TreeFile {
    /// Relative to the root of the source tree.
    pub path: String,
    pub text: Text,
    /// A directory (of this name) without content.
    pub dir: bool,
    /// A byte that is not UTF-8 follows the text.
    pub binary: bool,
}
js_struct!(TreeFile { path, text, dir, binary });

#[derive(Clone, Debug, PartialEq)]
pub struct SysFault {
    pub op: String,
    pub nth: usize,
    /// "e": fails with errno `arg`; "s": cut to `arg` bytes.
    pub kind: String,
    pub arg: usize,
}
js_struct!(SysFault { op, nth, kind, arg });

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub class: String,
    pub files: Vec<TreeFile>,
    pub order: u64,
    pub unknown: bool,
    pub chunk: usize,
    pub faults: Vec<SysFault>,
}
js_struct!(Case { prop, seed, class, files, order, unknown, chunk, faults });

const SPEC: &str = "docs/modules";
const RS: &str = "parser/src/tests";
const EIO: usize = 5;
const EINTR: usize = 4;

// ------------------------------------------------------------------ generator

const LINES: &[&str] = &[
    "", "", "= Title", "== Section", "para one", "para two with {attr}", "* item", "----", "include::x[]", "  indented",
    "a \"quoted\" line", "\u{e9}\u{301} \u{65e5}\u{672c}", "NOTE: x", "|===", "text with trailing space ", "\t", "r#\"", "x \\",
    "a rather longer line of text that goes on for a while so that it does not fit a small buffer",
];
const DIRS: &[&str] = &["ROOT", "a", "b b", "pages", "partials", "z.adoc", "x.rs", "_x", "A", "\u{e9}"];
const STEMS: &[&str] = &["index", "a", "b", "id", "Zed", "a b", "a-b", "a_b", "e\u{301}", "q\"t", "back\\s", "\u{200b}z", "aa", "10", "2", "tab\tx"];

fn pick_dir(r: &mut Rng, top: &str) -> String {
    let mut d = top.to_string();
    for _ in 0..r.below(4) {
        d.push('/');
        if r.chance(1, 14) {
            d.push('.');
        }
        d.push_str(r.pick(DIRS));
    }
    d
}

fn spec_text(r: &mut Rng) -> Vec<String> {
    let n = if r.chance(1, 12) { r.range(100, 400) } else { r.below(14) };
    (0..n).map(|_| r.pick(LINES).to_string()).collect()
}

fn tracking(r: &mut Rng, target: &str, spec: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec!["use crate::tests::prelude::*;".into(), String::new()];
    let head = format!("track_file!(\"{target}\");");
    let late = r.chance(1, 10);
    if !late {
        out.push(head.clone());
    }
    if r.chance(1, 40) {
        out.push(head.clone());
    }
    let mut i = 0;
    while i < spec.len() {
        let n = r.range(1, 5).min(spec.len() - i);
        let normative = r.chance(1, 2);
        let inner = r.chance(1, 2);
        out.push(String::new());
        if inner {
            out.push("#[test]".into());
            out.push("fn t() {".into());
        }
        let ind = if inner { "    " } else { "" };
        out.push(format!("{ind}{}(", if normative { "verifies!" } else { "non_normative!" }));
        out.push(format!("{ind}    {}", if r.chance(1, 4) { "r##\"" } else { "r#\"" }));
        for l in &spec[i..i + n] {
            match r.below(30) {
                0 => {}
                1 => out.push(format!("{l}x")),
                2 => {
                    out.push(l.clone());
                    out.push("extra".into());
                }
                _ => out.push(l.clone()),
            }
        }
        out.push(if r.chance(1, 4) { "\"##".into() } else { "\"#".to_string() });
        out.push(format!("{ind});"));
        if inner {
            out.push("    assert!(true);".into());
            out.push("}".into());
        }
        i += n;
        if r.chance(1, 12) {
            break;
        }
    }
    if late {
        out.push(head);
    }
    out
}

fn text(r: &mut Rng, lines: Vec<String>) -> Text {
    let mut chunks: Vec<Vec<String>> = vec![];
    for l in lines {
        match chunks.last_mut() {
            Some(c) if c.len() < 6 => c.push(l),
            _ => chunks.push(vec![l]),
        }
    }
    Text { chunks, eol: if r.chance(1, 6) { 1 + r.below(2) as u8 } else { 0 }, open: r.chance(1, 5) }
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut files: Vec<TreeFile> = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut add = |files: &mut Vec<TreeFile>, path: String, text: Text, dir: bool, binary: bool| {
        // No path may be both a file and a directory.
        let clash = used.iter().any(|u| u == &path || u.starts_with(&format!("{path}/")) || path.starts_with(&format!("{u}/")));
        if clash {
            return false;
        }
        used.insert(path.clone());
        files.push(TreeFile { path, text, dir, binary });
        true
    };
    let mut tracked: Vec<(String, Vec<String>)> = vec![];
    for _ in 0..r.range(1, 8) {
        let d = pick_dir(&mut r, SPEC);
        let stem = *r.pick(STEMS);
        let name = match r.below(14) {
            0 => format!(".{stem}.adoc"),
            1 => format!("{stem}.adoc.bak"),
            2 => format!("{stem}.ADOC"),
            3 => format!("{stem}.txt"),
            4 if r.chance(1, 2) => ".adoc".into(),
            _ => format!("{stem}.adoc"),
        };
        let path = format!("{d}/{name}");
        let lines = spec_text(&mut r);
        let binary = r.chance(1, 80);
        let t = text(&mut r, lines.clone());
        if add(&mut files, path.clone(), t, false, binary) && !path.contains(['"', '\\', '\t']) {
            tracked.push((path, lines));
        }
    }
    if r.chance(1, 4) {
        let d = pick_dir(&mut r, SPEC);
        add(&mut files, format!("{d}/empty.adoc"), Text::default(), true, false);
    }
    for (path, lines) in tracked.clone() {
        let copies = if r.chance(2, 3) { 1 } else { r.below(3) };
        for _ in 0..copies {
            let d = pick_dir(&mut r, RS);
            let stem = r.pick(&["a", "b", "c", "mod", "zz", "id", "x1"]);
            let name = if r.chance(1, 12) { format!("{stem}.txt") } else if r.chance(1, 14) { format!(".{stem}.rs") } else { format!("{stem}.rs") };
            let target = if r.chance(1, 14) { format!("{path}x") } else { path.clone() };
            let l = tracking(&mut r, &target, &lines);
            let t = text(&mut r, l);
            let binary = r.chance(1, 200);
            add(&mut files, format!("{d}/{name}"), t, false, binary);
        }
    }
    if r.chance(1, 2) {
        let d = pick_dir(&mut r, RS);
        let t = text(&mut r, vec!["fn no_tracking() {}".into(), "// verifies!(".into(), "x".into()]);
        add(&mut files, format!("{d}/plain.rs"), t, false, false);
    }
    let mut faults: Vec<SysFault> = vec![];
    for _ in 0..if r.chance(1, 2) { 0 } else { r.range(1, 3) } {
        let op = *r.pick(&["D", "L", "O", "R", "R", "W", "W", "S"]);
        let bound = match op {
            "D" => 8,
            "L" => 30,
            "O" => 16,
            "R" => 40,
            "W" => 60,
            _ => 20,
        };
        let nth = if r.chance(1, 2) { r.below(4) } else { r.below(bound) };
        let (kind, arg) = match op {
            "R" | "W" if r.chance(1, 2) => {
                if r.chance(1, 2) {
                    ("s", r.range(1, 40))
                } else {
                    ("e", EINTR)
                }
            }
            "R" => ("e", *r.pick(&[EIO, EIO, 21, 116])),
            "W" => ("e", *r.pick(&[EIO, 28, 28, 32, 122])),
            "L" => ("e", *r.pick(&[EIO, 2, 116])),
            _ => ("e", *r.pick(&[EIO, 2, 13, 24, 23, 12])),
        };
        if !faults.iter().any(|f| f.op == op && f.nth == nth) {
            faults.push(SysFault { op: op.into(), nth, kind: kind.into(), arg });
        }
    }
    Case {
        prop: prop.into(),
        seed,
        class: String::new(),
        files,
        order: r.next() >> 16,
        unknown: r.chance(1, 3),
        chunk: if r.chance(1, 3) { *r.pick(&[1usize, 2, 3, 7, 64, 1000]) } else { 0 },
        faults,
    }
}

// ------------------------------------------------------------------ model

/// Bytes of a file of the tree.
fn bytes(f: &TreeFile) -> Vec<u8> {
    let mut b = f.text.render().into_bytes();
    if f.binary {
        b.extend(b"\xff\n");
    }
    b
}

fn lines_of(t: &str) -> Vec<&str> {
    let mut v: Vec<&str> = t.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    let n = v.len();
    v.iter().enumerate().map(|(i, l)| if i + 1 < n || t.ends_with('\n') { l.strip_suffix('\r').unwrap_or(l) } else { l }).collect()
}

type Report = BTreeMap<String, BTreeMap<String, i128>>;

/// What the report should say; None if the tool must refuse the tree.
fn expected(files: &[TreeFile]) -> Option<Report> {
    let visible = |f: &&TreeFile, top: &str, ext: &str| {
        !f.dir
            && f.path.strip_prefix(top).and_then(|p| p.strip_prefix('/')).is_some_and(|p| {
                p.ends_with(ext) && p.split('/').all(|c| !c.starts_with('.'))
            })
    };
    // Names are compared per directory level, as bytes.
    let key = |f: &&TreeFile| f.path.split('/').map(|c| c.as_bytes().to_vec()).collect::<Vec<_>>();
    let mut rs: Vec<&TreeFile> = files.iter().filter(|f| visible(f, RS, ".rs")).collect();
    rs.sort_by_key(key);
    let mut tracked: BTreeMap<&str, Vec<(&str, bool)>> = BTreeMap::new();
    for f in rs {
        if f.binary {
            return None;
        }
        let t: &'static str = Box::leak(f.text.render().into_boxed_str());
        let mut target: Option<&str> = None;
        let mut state: Option<bool> = None;
        let mut found: Vec<(&str, bool)> = vec![];
        for l in lines_of(t) {
            if let Some(x) = l.strip_prefix("track_file!(\"").and_then(|x| x.strip_suffix("\");")) {
                if target.replace(x).is_some() {
                    return None;
                }
            } else if l.contains("non_normative!(") {
                state = Some(false);
            } else if l.contains("verifies!(") {
                state = Some(true);
            } else if l.starts_with("\"#") {
                state = None;
            } else if !l.ends_with("r#\"") && !l.ends_with("r##\"") {
                found.extend(state.map(|s| (l, s)));
            }
        }
        if let Some(x) = target {
            tracked.insert(x, found);
        }
    }
    let mut out = Report::new();
    for f in files.iter().filter(|f| visible(f, SPEC, ".adoc")) {
        if f.binary {
            return None;
        }
        let t = f.text.render();
        let none = vec![];
        let cov = tracked.get(f.path.as_str()).unwrap_or(&none);
        let mut m = BTreeMap::new();
        for (i, l) in lines_of(&t).iter().enumerate() {
            if l.is_empty() {
                continue;
            }
            let v = match cov.get(i) {
                None => 0,
                Some((c, true)) if c == l => 1,
                Some(_) => continue,
            };
            m.insert((i + 1).to_string(), v);
        }
        out.insert(f.path.clone(), m);
    }
    Some(out)
}

/// Reads the tool's output; an error names what is wrong with it.
fn read_report(out: &[u8]) -> Result<Report, String> {
    let s = std::str::from_utf8(out).map_err(|e| format!("not UTF-8: {e}"))?;
    let j = J::parse(s).ok_or("not valid JSON")?;
    let J::Obj(top) = j else { return Err("not an object".into()) };
    let [(k, J::Obj(files))] = top.as_slice() else { return Err("not a single coverage object".into()) };
    if k != "coverage" {
        return Err("not a coverage object".into());
    }
    let mut r = Report::new();
    for (f, v) in files {
        let J::Obj(v) = v else { return Err(format!("coverage of {f:?} is not an object")) };
        let mut m = BTreeMap::new();
        for (n, x) in v {
            let J::Int(x) = x else { return Err(format!("coverage of {f:?} line {n} is not a number")) };
            if m.insert(n.clone(), *x).is_some() {
                return Err(format!("{f:?} lists line {n} twice"));
            }
        }
        if r.insert(f.clone(), m).is_some() {
            return Err(format!("{f:?} is listed twice"));
        }
    }
    Ok(r)
}

// ------------------------------------------------------------------ execution

pub struct Outcome {
    pub success: bool,
    pub status: String,
    pub out: Vec<u8>,
    pub err: String,
    pub fired: Vec<String>,
    pub totals: String,
}

unsafe extern "C" {
    fn alarm(s: u32) -> u32;
}

fn target_dir() -> PathBuf {
    std::env::current_exe().ok().and_then(|p| p.parent().and_then(Path::parent).map(Path::to_path_buf)).unwrap_or_default()
}

fn scratch() -> PathBuf {
    let top = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{top}/adsim-s01-{}", std::process::id()))
}

pub fn clean() {
    let _ = std::fs::remove_dir_all(scratch());
}

pub fn run(c: &Case) -> Result<Outcome, String> {
    let root = scratch();
    let _ = std::fs::remove_dir_all(&root);
    let e = |e: std::io::Error| format!("cannot prepare the source tree: {e}");
    for d in ["sdd", SPEC, RS] {
        std::fs::create_dir_all(root.join(d)).map_err(e)?;
    }
    for f in &c.files {
        let p = root.join(std::ffi::OsStr::from_bytes(f.path.as_bytes()));
        if f.dir {
            std::fs::create_dir_all(&p).map_err(e)?;
        } else {
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).map_err(e)?;
            }
            std::fs::write(&p, bytes(f)).map_err(e)?;
        }
    }
    let log = root.join("log");
    let mut plan = format!("order={} unknown={} chunk={}", c.order, c.unknown as u8, c.chunk);
    for f in &c.faults {
        plan.push_str(&format!(" f={}:{}:{}:{}", f.op, f.nth, f.kind, f.arg));
    }
    let t = target_dir();
    let mut cmd = Command::new(t.join("sdd/debug/sdd"));
    cmd.current_dir(root.join("sdd"))
        .env_clear()
        .env("LD_PRELOAD", t.join("shim.so"))
        .env("ADSHIM", plan)
        .env("ADSHIM_LOG", &log)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            alarm(20);
            Ok(())
        });
    }
    let o = cmd.output().map_err(|e| format!("cannot run the tool: {e}"))?;
    let log = std::fs::read_to_string(&log).unwrap_or_default();
    let fired = log.lines().filter_map(|l| l.strip_prefix("F ")).map(str::to_string).collect();
    let totals = log.lines().find_map(|l| l.strip_prefix("T ")).unwrap_or("").to_string();
    Ok(Outcome {
        success: o.status.success(),
        status: o.status.to_string(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
        fired,
        totals,
    })
}

// ------------------------------------------------------------------ judgement

fn violation(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail })
}

fn describe_fault(f: &str) -> String {
    let f = f.split(' ').next().unwrap_or("");
    let p: Vec<&str> = f.split(':').collect();
    let op = match p[0] {
        "D" => "open directory",
        "L" => "list directory",
        "O" => "open file",
        "R" => "read",
        "W" => "write",
        _ => "stat",
    };
    let what = match (p[2], p[3]) {
        ("s", _) => "short".to_string(),
        (_, "4") => "EINTR".into(),
        (_, "2") => "ENOENT".into(),
        (_, "5") => "EIO".into(),
        (_, "12") => "ENOMEM".into(),
        (_, "13") => "EACCES".into(),
        (_, "21") => "EISDIR".into(),
        (_, "23") => "ENFILE".into(),
        (_, "24") => "EMFILE".into(),
        (_, "28") => "ENOSPC".into(),
        (_, "32") => "EPIPE".into(),
        (_, "116") => "ESTALE".into(),
        (_, "122") => "EDQUOT".into(),
        (_, x) => format!("errno {x}"),
    };
    format!("{op} {what}")
}

/// Faults after which the tool cannot have read or written everything it has to
/// (what lies in hidden directories, and other files, it need not read).
fn hard(f: &str) -> bool {
    let (f, path) = f.split_once(' ').unwrap_or((f, ""));
    let p: Vec<&str> = f.split(':').collect();
    if path.split('/').any(|c| c.starts_with('.') && c != "..") {
        return false;
    }
    if matches!(p[0], "O" | "R") && !path.ends_with(".rs") && !path.ends_with(".adoc") {
        return false;
    }
    p[2] == "e" && p[0] != "S" && !(p[3] == "4" && matches!(p[0], "R" | "W" | "O"))
}

pub fn judge(c: &Case, cov: &mut Covered) -> Option<Violation> {
    let o = match run(c) {
        Ok(o) => o,
        Err(e) => {
            // The simulator itself failed: report it as unfinished, not as a violation.
            eprintln!("{e}");
            crate::sys::exit_now(2);
        }
    };
    cov.runs += 1;
    for f in &o.fired {
        *cov.faults.entry(describe_fault(f)).or_default() += 1;
    }
    if c.order != 0 {
        *cov.faults.entry("shuffled directory listings".into()).or_default() += 1;
    }
    if c.unknown {
        *cov.faults.entry("directory entries without type".into()).or_default() += 1;
    }
    if c.chunk != 0 {
        *cov.faults.entry("all reads and writes split".into()).or_default() += 1;
    }
    for t in o.totals.split(' ') {
        if let Some((k, v)) = t.split_once('=')
            && k != "h"
        {
            cov.steps += v.parse::<u64>().unwrap_or(0);
        }
    }
    cov.hashes.push(hash(format!("{} {} {:?}", o.totals, o.status, o.out).as_bytes()));
    let want = expected(&c.files);
    cov.nontrivial |= want.as_ref().is_some_and(|w| !w.is_empty()) || !o.fired.is_empty();
    let fired: Vec<String> = o.fired.iter().map(|f| describe_fault(f)).collect();
    if o.success {
        cov.count("successful executions", 1);
        if let Some(f) = o.fired.iter().find(|f| hard(f)) {
            return violation("exit", format!("the tool succeeds although a call failed ({})", describe_fault(f)));
        }
        let Some(w) = want else {
            return violation("exit", "the tool succeeds although a source cannot be understood completely".into());
        };
        let got = match read_report(&o.out) {
            Ok(g) => g,
            Err(e) => return violation("output", format!("the output is wrong: {e}")),
        };
        if got != w {
            for (f, m) in &w {
                match got.get(f) {
                    None => return violation("output", format!("{f:?} is not listed (faults: {fired:?})")),
                    Some(g) if g != m => {
                        return violation("output", format!("coverage of {f:?} is {g:?}, should be {m:?} (faults: {fired:?})"));
                    }
                    _ => {}
                }
            }
            let extra = got.keys().find(|k| !w.contains_key(*k));
            return violation("output", format!("{extra:?} is listed but is not a spec file"));
        }
    } else {
        cov.count("failed executions", 1);
        let soft = o.fired.iter().all(|f| f.contains(":s:") || (f.contains(":e:4 ") && (f.starts_with('R') || f.starts_with('W'))));
        if soft && want.is_some_and(|w| !w.is_empty()) {
            return violation(
                "refusal",
                format!("the tool fails ({}) although everything could be read and written (faults: {fired:?}): {}", o.status, o.err.lines().take(3).collect::<Vec<_>>().join(" ")),
            );
        }
    }
    None
}

pub fn repeatable(c: &Case) -> Option<String> {
    let (a, b) = (run(c).ok()?, run(c).ok()?);
    if (a.success, &a.out, &a.fired, &a.totals) != (b.success, &b.out, &b.fired, &b.totals) {
        return Some(format!("two executions of the plan with seed {} differ", c.seed));
    }
    None
}

// ------------------------------------------------------------------ minimisation

fn reductions(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            out.push(d);
        }
    };
    push(&|d| d.faults.clear());
    push(&|d| d.order = 0);
    push(&|d| d.unknown = false);
    push(&|d| d.chunk = 0);
    for i in 0..c.faults.len() {
        push(&|d| {
            d.faults.remove(i);
        });
    }
    for i in 0..c.files.len() {
        push(&|d| {
            d.files.remove(i);
        });
    }
    for i in 0..c.files.len() {
        push(&|d| d.files[i].text.eol = 0);
        push(&|d| d.files[i].text.open = false);
        push(&|d| d.files[i].binary = false);
        for k in 0..c.files[i].text.chunks.len() {
            push(&|d| {
                d.files[i].text.chunks.remove(k);
            });
        }
        for k in 0..c.files[i].text.chunks.len() {
            if c.files[i].text.chunks.len() > 20 {
                break;
            }
            for n in 0..c.files[i].text.chunks[k].len() {
                push(&|d| {
                    d.files[i].text.chunks[k].remove(n);
                });
            }
        }
    }
    for i in 0..c.faults.len() {
        push(&|d| d.faults[i].nth = d.faults[i].nth.saturating_sub(1));
    }
    out
}

pub fn minimise(c: &Case, v: &Violation, budget_ms: u64) -> (Case, Violation, u64) {
    let end = crate::sys::now_ms() + budget_ms;
    let (mut cur, mut cv, mut tried) = (c.clone(), v.clone(), 0);
    'outer: loop {
        for q in reductions(&cur) {
            if crate::sys::now_ms() > end {
                break 'outer;
            }
            tried += 1;
            if let Some(w) = judge(&q, &mut Covered::default())
                && w.class == cv.class
            {
                cur = q;
                cv = w;
                continue 'outer;
            }
        }
        break;
    }
    (cur, cv, tried)
}

pub fn summary(c: &Case) -> String {
    let f: Vec<String> = c.files.iter().map(|f| format!("{:?} ({} lines)", f.path, f.text.lines().count())).collect();
    let g: Vec<String> = c.faults.iter().map(|f| format!("{} {}", describe_fault(&format!("{}:{}:{}:{}", f.op, f.nth, f.kind, f.arg)), f.nth)).collect();
    format!("{}; order {:x}, chunk {}, faults {:?}", f.join(", ").chars().take(600).collect::<String>(), c.order, c.chunk, g)
}
