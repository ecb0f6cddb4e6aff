//! Deterministic simulation of asciidoc-parser: see /verif/DESIGN.md.

#[macro_use]
mod json;
mod atomics;
mod checks;
mod coverage;
mod digest;
mod gen_;
mod model;
mod plan;
mod rng;
mod sched;
mod storage;
mod sys;
mod world;

use checks::{Covered, Violation};
use gen_ as generator;
use json::{J, Js};
use plan::Plan;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[global_allocator]
static HEAP: sys::Heap = sys::Heap;

fn root() -> PathBuf {
    std::env::var_os("ADSIM_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i).map_or("", |s| s.as_str());
    if a(0) == "exec-plan" {
        world::silence_panics();
        world::exec_main();
    }
    sys::fixed_addresses();
    if !sched::instrumented() {
        eprintln!("the library was built without the instrumentation of wrap.sh");
        sys::exit_now(2);
    }
    if std::env::var_os("ADSIM_LOUD").is_none() {
        world::silence_panics();
    }
    let code = match a(0) {
        "check" => check(a(1), a(2)),
        "replay" => replay(a(1)),
        "show" => show(a(1), a(2)),
        "trace" => trace(a(1)),
        _ => {
            eprintln!("usage: adsim check PROPERTY quick|thorough | replay FILE | show PROPERTY SEED | trace FILE");
            2
        }
    };
    sys::exit_now(code);
}

/// What is explored: plans for the parser, or cases for the coverage tool.
trait Subject {
    type P: Js + Clone;
    fn generate(prop: &str, seed: u64) -> Self::P;
    fn judge(p: &Self::P, cov: &mut Covered) -> Option<Violation>;
    fn explore(p: &Self::P, _b: &Budget, cov: &mut Covered) -> Option<(Self::P, Violation)> {
        Self::judge(p, cov).map(|v| (p.clone(), v))
    }
    fn repeatable(p: &Self::P) -> Option<String>;
    fn minimise(p: &Self::P, v: &Violation, ms: u64) -> (Self::P, Violation, u64);
    fn summary(p: &Self::P) -> String;
    fn seed(p: &Self::P) -> u64;
    fn set_class(p: &mut Self::P, class: &str);
    fn clean() {}
    fn components() -> [(&'static str, &'static str); 3];
}

struct Library;
impl Subject for Library {
    type P = Plan;
    fn generate(prop: &str, seed: u64) -> Plan {
        generator::generate(prop, seed)
    }
    fn judge(p: &Plan, cov: &mut Covered) -> Option<Violation> {
        checks::judge(p, cov)
    }
    fn explore(p: &Plan, b: &Budget, cov: &mut Covered) -> Option<(Plan, Violation)> {
        if p.prop == "C08" {
            return checks::explore_schedules(p, b.schedules, cov);
        }
        Self::judge(p, cov).map(|v| (p.clone(), v))
    }
    fn repeatable(p: &Plan) -> Option<String> {
        let mut p = p.clone();
        if p.prop == "C08" {
            let mut r = rng::Rng::new(p.seed);
            p.switches = (0..40).map(|_| (sched::at(r.below(3), 1 + r.below(4000) as u64), r.below(3) as u64)).collect();
        }
        checks::repeatable(&p)
    }
    fn minimise(p: &Plan, v: &Violation, ms: u64) -> (Plan, Violation, u64) {
        checks::minimise(p, v, ms)
    }
    fn summary(p: &Plan) -> String {
        checks::summary(p)
    }
    fn seed(p: &Plan) -> u64 {
        p.seed
    }
    fn set_class(p: &mut Plan, class: &str) {
        p.class = class.into();
    }
    fn components() -> [(&'static str, &'static str); 3] {
        [
            (
                "simulated_time",
                "The library reads no clock and sets no timer; the simulated clock only exists so that a reading would be repeatable. Progress is counted in callbacks and schedule points.",
            ),
            (
                "real_components",
                "the whole asciidoc-parser crate with its dependencies (regex, self_cell) and the Rust standard library's locks and hash maps; the crate itself is compiled with a call at every basic block (LLVM's trace-pc-guard pass), through which the simulator counts work and switches threads",
            ),
            (
                "stubs",
                "storage behind IncludeFileHandler, a recording wrapper around the HTML renderer, thread scheduling (futex), getrandom, clock_gettime, heap placement",
            ),
        ]
    }
}

struct Tool;
impl Subject for Tool {
    type P = coverage::Case;
    fn generate(prop: &str, seed: u64) -> Self::P {
        coverage::generate(prop, seed)
    }
    fn judge(p: &Self::P, cov: &mut Covered) -> Option<Violation> {
        coverage::judge(p, cov)
    }
    fn repeatable(p: &Self::P) -> Option<String> {
        coverage::repeatable(p)
    }
    fn minimise(p: &Self::P, v: &Violation, ms: u64) -> (Self::P, Violation, u64) {
        coverage::minimise(p, v, ms)
    }
    fn summary(p: &Self::P) -> String {
        coverage::summary(p)
    }
    fn seed(p: &Self::P) -> u64 {
        p.seed
    }
    fn set_class(p: &mut Self::P, class: &str) {
        p.class = class.into();
    }
    fn clean() {
        coverage::clean();
    }
    fn components() -> [(&'static str, &'static str); 3] {
        [
            (
                "simulated_time",
                "The tool reads no clock. Progress is counted in system calls on the tree and standard output (schedule_points).",
            ),
            ("real_components", "the sdd program with walkdir and the Rust standard library, unmodified, in a process of its own"),
            (
                "stubs",
                "opendir, readdir, open, read, write and stat behind a preloaded shim that decides listing order, entry types, read and write sizes and failures; file contents come from a generated tree",
            ),
        ]
    }
}

fn load<P: Js>(path: &Path) -> Option<P> {
    let s = std::fs::read_to_string(path).ok()?;
    P::read(&J::parse(&s)?)
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let prop = J::parse(&s).map(|j| j.get("prop").str().to_string()).unwrap_or_default();
    if prop == "S01" { replay_one::<Tool>(path, &prop) } else { replay_one::<Library>(path, &prop) }
}

fn replay_one<S: Subject>(path: &str, prop: &str) -> i32 {
    let Some(plan) = load::<S::P>(Path::new(path)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let v = S::judge(&plan, &mut Covered::default());
    S::clean();
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("no violation of {prop}");
            0
        }
    }
}

fn show(prop: &str, seed: &str) -> i32 {
    let seed = seed.parse().unwrap_or(1);
    let j = if prop == "S01" { Tool::generate(prop, seed).to() } else { Library::generate(prop, seed).to() };
    print!("{}", j.pretty());
    0
}

fn trace(path: &str) -> i32 {
    let Some(plan) = load::<Plan>(Path::new(path)) else { return 2 };
    match world::run(&plan, true) {
        Ok(t) => print!("{}", t.to().pretty()),
        Err(d) => println!("{}", d.describe()),
    }
    0
}

struct Budget {
    plans: u64,
    seconds: u64,
    schedules: usize,
}

fn budget(prop: &str, tier: &str) -> Budget {
    let quick = match prop {
        "C01" | "C02" | "C03" => 25_000,
        "C04" => 30_000,
        "C05" => 9_000,
        "C06" => 16_000,
        "C07" => 10_000,
        "C08" => 900,
        "C09" => 4_500,
        "C10" => 20_000,
        "C13" => 12_000,
        "C14" => 6_000,
        "C15" => 2_500,
        "S01" => 40_000,
        _ => 12_000,
    };
    let e = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let (plans, seconds) = if tier == "thorough" { (quick * 40, 700) } else { (quick, 60) };
    Budget {
        plans: e("ADSIM_PLANS").unwrap_or(plans),
        seconds: e("ADSIM_SECONDS").unwrap_or(seconds),
        schedules: if tier == "thorough" { 24 } else { 12 },
    }
}

#[derive(Default)]
struct Totals {
    plans: u64,
    nontrivial: u64,
    runs: u64,
    parses: u64,
    callbacks: u64,
    steps: u64,
    switches: u64,
    blocked: u64,
    rechecks: u64,
    unrepeatable: u64,
    faults: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
}

fn add(t: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    let e = t.entry(k.to_string()).or_default();
    if k.starts_with("max ") { *e = (*e).max(n) } else { *e += n }
}

impl Totals {
    fn cover(&mut self, c: Covered) {
        self.plans += 1;
        self.runs += c.runs;
        self.parses += c.parses;
        self.callbacks += c.callbacks;
        self.steps += c.steps;
        self.switches += c.switches;
        self.blocked += c.blocked;
        for (k, n) in c.faults {
            add(&mut self.faults, &k, n);
        }
        for (k, n) in c.counts {
            add(&mut self.counts, &k, n);
        }
        if c.nontrivial {
            self.nontrivial += 1;
            self.hashes.extend(c.hashes);
        }
    }
    fn message(&mut self) -> String {
        let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), v.to())).collect());
        let j = J::Obj(vec![
            (
                "n".into(),
                vec![
                    self.plans, self.nontrivial, self.runs, self.parses, self.callbacks, self.steps, self.switches,
                    self.blocked, self.rechecks, self.unrepeatable,
                ]
                .to(),
            ),
            ("faults".into(), map(&self.faults)),
            ("counts".into(), map(&self.counts)),
            ("hashes".into(), self.hashes.iter().copied().collect::<Vec<u64>>().to()),
        ]);
        *self = Totals::default();
        format!("S{}", j.compact())
    }
    fn merge(&mut self, j: &J) {
        let n: Vec<u64> = Js::read(j.get("n")).unwrap_or_default();
        for (x, y) in [
            &mut self.plans, &mut self.nontrivial, &mut self.runs, &mut self.parses, &mut self.callbacks,
            &mut self.steps, &mut self.switches, &mut self.blocked, &mut self.rechecks, &mut self.unrepeatable,
        ]
        .into_iter()
        .zip(n)
        {
            *x += y;
        }
        for (k, m) in [("faults", &mut self.faults), ("counts", &mut self.counts)] {
            if let J::Obj(v) = j.get(k) {
                for (k, x) in v {
                    add(m, k, <u64 as Js>::read(x).unwrap_or(0));
                }
            }
        }
        let h: Vec<u64> = Js::read(j.get("hashes")).unwrap_or_default();
        self.hashes.extend(h);
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    if prop == "S01" { check_one::<Tool>(prop, tier) } else { check_one::<Library>(prop, tier) }
}

fn check_one<S: Subject>(prop: &str, tier: &str) -> i32 {
    let tier = if tier.is_empty() { "quick" } else { tier };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = sys::now_ms();
    let b = budget(prop, tier);
    let known = known_findings::<S>(prop);
    let mut found: Option<(S::P, Violation)> = None;
    for (file, plan) in &known {
        let mut cov = Covered::default();
        if let Some(v) = S::judge(plan, &mut cov) {
            println!("KNOWN-FINDING: property={prop} {file}: {}", v.detail);
        }
    }
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8) as u64;
    let deadline = start + b.seconds * 1000;
    let mut ws: Vec<sys::Worker> = vec![];
    for w in 0..workers {
        let b = budget(prop, tier);
        ws.push(sys::spawn_worker(|sink| {
            let mut t = Totals::default();
            let mut last = sys::now_ms();
            let mut i = w;
            while i < b.plans && sys::now_ms() < deadline {
                let plan = S::generate(prop, generator::plan_seed(base, prop, i));
                let mut cov = Covered::default();
                let v = S::explore(&plan, &b, &mut cov);
                t.cover(cov);
                if v.is_none() && i % 64 == w {
                    t.rechecks += 1;
                    if let Some(d) = S::repeatable(&plan) {
                        t.unrepeatable += 1;
                        sink.send(&format!("U{d}"));
                    }
                }
                if let Some((p, v)) = v {
                    sink.send(&t.message());
                    let j = J::Arr(vec![p.to(), v.class.to(), v.detail.to()]);
                    sink.send(&format!("V{}", j.compact()));
                    S::clean();
                    return;
                }
                if sys::now_ms() > last + 500 {
                    last = sys::now_ms();
                    sink.send(&t.message());
                }
                i += workers;
            }
            sink.send(&t.message());
            S::clean();
            sink.send("E");
        }));
    }
    let mut totals = Totals::default();
    let mut finished = 0;
    while ws.iter().any(|w| !w.done) {
        sys::pump(&mut ws, 1000, |_, rec| {
            if let Some(r) = rec.strip_prefix('S') {
                if let Some(j) = J::parse(r) {
                    totals.merge(&j);
                }
            } else if let Some(r) = rec.strip_prefix('V') {
                if let Some(J::Arr(v)) = J::parse(r)
                    && let Some(p) = S::P::read(&v[0])
                {
                    // The smallest seed index reported so far does not matter: any is exact.
                    found.get_or_insert((p, Violation { class: v[1].str().into(), detail: v[2].str().into() }));
                }
            } else if let Some(r) = rec.strip_prefix('U') {
                eprintln!("not repeatable: {r}");
            } else if rec == "E" {
                finished += 1;
            }
        });
        if found.is_some() {
            break;
        }
        if sys::now_ms() > deadline + 90_000 {
            break;
        }
    }
    for w in &mut ws {
        sys::kill_worker(w);
    }
    let explored_ms = sys::now_ms() - start;
    let mut code = 0;
    let mut violations = 0;
    if let Some((plan, v)) = found {
        let (mut small, sv, tried) = S::minimise(&plan, &v, 20_000);
        S::set_class(&mut small, &sv.class);
        let dir = root().join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{:016x}.json", S::seed(&small)));
        let _ = std::fs::write(&path, small.to().pretty());
        println!("{}: {}", sv.class, sv.detail);
        println!("seed {:016x}, minimised in {tried} steps: {}", S::seed(&small), S::summary(&small));
        let again = load::<S::P>(&path).and_then(|p| S::judge(&p, &mut Covered::default()));
        S::clean();
        println!("replay of the file {}", if again.as_ref() == Some(&sv) { "reproduces it exactly" } else { "gives another outcome" });
        println!("VIOLATION property={prop} replay={}", path.display());
        violations = 1;
        code = 1;
    }
    write_evidence::<S>(prop, tier, base, &totals, explored_ms, sys::now_ms() - start, violations, known.len());
    println!(
        "{prop} {tier}: {} plans, {} runs, {} parses, {} distinct histories, {} ms",
        totals.plans,
        totals.runs,
        totals.parses,
        totals.hashes.len(),
        explored_ms
    );
    if code == 0 && (totals.plans == 0 || finished < workers) {
        eprintln!("the exploration was not finished: {finished} of {workers} workers");
        return 2;
    }
    code
}

/// Plans that show defects listed in known-findings.txt.
fn known_findings<S: Subject>(prop: &str) -> Vec<(String, S::P)> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let mut file = "";
        let mut p = "";
        for w in r.split(' ') {
            if let Some(x) = w.strip_prefix("property=") {
                p = x;
            } else if let Some(x) = w.strip_prefix("plan=") {
                file = x;
            }
        }
        if p == prop
            && let Some(plan) = load(&root().join(file))
        {
            out.push((file.to_string(), plan));
        }
    }
    out
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" => {
            "One plan per seed: stored files, parser histories, documents with include directives and attribute entries, and storage faults per read. Non-trivial: at least one include directive was processed. Distinct: by hash of every parse result, callback and attribute snapshot of the run."
        }
        "C04" => {
            "One plan per seed: restricted attributes configured through the API, then a history of structured documents with entries in header, body, blocks and included files. Non-trivial: the model made or refused at least one assignment. Distinct: by hash of all parse results, callbacks and snapshots."
        }
        "C05" => {
            "One plan per seed: a history of documents on up to three parsers. Non-trivial: at least one parse after another was compared with a new parser. Distinct: by hash of the run's results."
        }
        "C06" => {
            "One plan per seed: callbacks panic at chosen calls, and parsing goes on with the same parser. Non-trivial: at least one parse after an injected panic was compared. Distinct: by hash of the run's results."
        }
        "C07" => {
            "One plan per seed: callbacks parse other documents at chosen calls, up to three deep. Non-trivial: at least one nested parse ran. Distinct: by hash of outer and nested results."
        }
        "C08" => {
            "One set of two to four clients per seed, each under several schedules drawn from few to many thread switches at basic blocks of the library (mostly right after atomic operations, and in blocks that are rarely reached), heap allocations, callbacks and lock operations. Non-trivial: at least one switch happened. Distinct: by hash of the switch path and results."
        }
        "C09" => {
            "One plan per seed, run again unchanged and in three other environments (hash seeds, configuration order, cold or warm library, earlier parses, thread, heap layout). Non-trivial: at least two environments returned. Distinct: by hash of results."
        }
        "C10" => {
            "One plan per seed: documents and stored files of arbitrary fragments, damaged at chosen reads. Non-trivial: a fault took effect or the document has blocks. Distinct: by hash of results."
        }
        "C13" => {
            "One plan per seed: a history of documents assembled from storage under faults; each one is parsed again, by a new parser without storage, from its own text. Non-trivial: at least one document that asked storage was compared. Distinct: by hash of the run's results."
        }
        "C14" => {
            "One plan per seed: a history of parses, crashes in callbacks and nested parses, repeated with words that differ each time, on parsers that live on and on new ones, until memory in use stops growing or 256 times. Non-trivial: a document has blocks. Distinct: by hash of the first repetition's results."
        }
        "C15" => {
            "One plan per seed: documents (or one stored file) of a few constructs repeated to three lengths, or a history repeated 40 times on the same and on new parsers; what is counted is basic blocks of the library run and bytes requested. Non-trivial: two lengths could be compared, or a document of the repeated history has blocks. Distinct: by hash of the run's results."
        }
        "C11" => {
            "One plan per seed: a history in which every document is kept and read again after each later step, after its parser and handlers are gone, and from other threads. Non-trivial: at least one document was kept. Distinct: by hash of results."
        }
        "S01" => {
            "One generated source tree and system call schedule per seed. Non-trivial: the tree has a spec file or a fault took effect. Distinct: by hash of the calls made, exit status and output."
        }
        _ => {
            "One plan per seed: parses under storage faults, then parses with healthy storage. Non-trivial: at least one parse after a fault took effect was compared with a new parser. Distinct: by hash of results."
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence<S: Subject>(prop: &str, tier: &str, base: u64, t: &Totals, explored_ms: u64, wall_ms: u64, violations: u64, known: usize) {
    let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), v.to())).collect());
    let s = |x: &str| J::Str(x.into());
    let mut samples = vec![];
    for i in 0..3u64 {
        let p = S::generate(prop, generator::plan_seed(base, prop, i * 7));
        samples.push(J::Str(format!("seed {:016x}: {}", S::seed(&p), S::summary(&p))));
    }
    let hours = (explored_ms.max(1)) as f64 / 3_600_000.0;
    let mut coverage = vec![
        ("evaluations".into(), t.runs.to()),
        ("distinct_nontrivial".into(), (t.hashes.len() as u64).to()),
        ("rule".into(), s(rule(prop))),
        ("samples".into(), J::Arr(samples)),
        ("seeds".into(), t.plans.to()),
        ("nontrivial_seeds".into(), t.nontrivial.to()),
        ("runs_per_hour".into(), J::Int((t.runs as f64 / hours) as i128)),
        ("seeds_per_hour".into(), J::Int((t.plans as f64 / hours) as i128)),
        ("parses".into(), t.parses.to()),
        ("callbacks".into(), t.callbacks.to()),
        ("schedule_points".into(), t.steps.to()),
        ("thread_switches".into(), t.switches.to()),
        ("futex_waits".into(), t.blocked.to()),
        ("faults_injected".into(), map(&t.faults)),
        ("observed".into(), map(&t.counts)),
        ("repeatability_rechecks".into(), t.rechecks.to()),
        ("repeatability_failures".into(), t.unrepeatable.to()),
        ("known_findings_rechecked".into(), known.to()),
        ("distinct_measure".into(), s("64-bit hash of the complete recorded history")),
    ];
    coverage.extend(S::components().iter().map(|(k, v)| (k.to_string(), s(v))));
    let j = J::Obj(vec![
        ("property".into(), s(prop)),
        ("tier".into(), s(tier)),
        ("seed".into(), base.to()),
        ("level".into(), s("exploration")),
        ("coverage".into(), J::Obj(coverage)),
        (
            "assumptions".into(),
            J::Arr(vec![
                s("The reference model states the documented behaviour; its own limits are listed in DESIGN.md."),
                s("Seeded search: what was not drawn was not explored."),
            ]),
        ),
        ("wall_s".into(), J::Num(wall_ms as f64 / 1000.0)),
        ("violations".into(), violations.to()),
    ]);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), j.pretty());
}
