use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::{crash, Src};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

/// A property violation: `sig` names what failed (stable), `msg` describes the case.
#[derive(Clone, Debug)]
pub struct Fail { pub sig: String, pub msg: String }
impl Fail {
    pub fn new(sig: &str, msg: String) -> Self { Self { sig: sig.into(), msg } }
}

/// What a passing case was like.
#[derive(Default)]
pub struct Case { pub nontrivial: bool, pub sample: String, pub labels: Vec<&'static str> }
impl Case {
    pub fn new(nontrivial: bool, sample: impl Into<String>) -> Self { Self { nontrivial, sample: sample.into(), labels: vec![] } }
    pub fn label(mut self, on: bool, l: &'static str) -> Self { if on { self.labels.push(l); } self }
}

/// What to run again: choices, or the seed they are drawn from.
#[derive(Clone)]
enum Tape { Choices(Vec<u64>), Seed(u64) }

type Prop<'a> = dyn Fn(&mut Src) -> Result<Case, Fail> + Sync + 'a;

#[derive(Default)]
struct Stats { evaluations: u64, nontrivial: HashSet<u64>, samples: Vec<(u64, String)>, labels: BTreeMap<&'static str, u64>, per: BTreeMap<String, (u64, u64)> }

/// The sub-checks of one property and the evidence they leave.
pub struct Suite {
    id: String,
    pub tier: Tier,
    seed: u64,
    rule: String,
    assumptions: Vec<String>,
    start: Instant,
    stats: Stats,
    violations: Vec<(String, Fail, Vec<u64>)>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    replay: Option<(String, Tape)>,
    scale: u64,
    root: String,
    extra: serde_json::Map<String, Value>,
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

fn hash(x: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn run_one(f: &Prop, src: &mut Src, case: u64) -> Result<Case, Fail> {
    crash::begin(src, case);
    let r = run_case(f, src);
    crash::end();
    r
}
fn run_case(f: &Prop, src: &mut Src) -> Result<Case, Fail> {
    // identifiers and tokens made by the code under test come from fastrand: pin them too
    fastrand::seed(0x5eed);
    match catch_unwind(AssertUnwindSafe(|| f(src))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            let loc = m.lines().next().unwrap_or("").to_string();
            Err(Fail { sig: format!("panic:{loc}"), msg: format!("panicked: {m}") })
        }
    }
}

impl Suite {
    /// `args`: property id, then `replay FILE` or nothing.
    pub fn new(id: &str, rule: &str) -> Self {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
        let replaying = std::env::var("VERIF_REPLAY").is_ok();
        if std::env::var("VERIF_CHILD").is_err() && !replaying { crash::supervise(&root, id, if tier == Tier::Quick { "quick" } else { "thorough" }, seed); }
        crash::child(&root, id);
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{file}: {}\n at {loc}", msg.lines().next().unwrap_or(""))));
        }));
        let known: Vec<(String, String)> = std::fs::read_to_string(format!("{root}/known-findings.json")).ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v["findings"].as_array().cloned()).unwrap_or_default().iter()
            .filter(|e| e["property"] == id)
            .map(|e| (e["signature"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string())).collect();
        let replay = std::env::var("VERIF_REPLAY").ok().map(|p| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&p).expect("replay file")).expect("replay json");
            let sub = v["sub"].as_str().unwrap().to_string();
            let tape = match v["tape"].as_array() {
                Some(t) => Tape::Choices(t.iter().map(|x| x.as_u64().unwrap()).collect()),
                None => Tape::Seed(hash(&(hash(&(id, sub.as_str(), v["seed"].as_u64().unwrap_or(seed))), v["case"].as_u64().unwrap_or(0)))),
            };
            (sub, tape)
        });
        // a case that never ends is an error of the check, not a violation
        let limit = if tier == Tier::Quick { 840 } else { 6 * 3600 };
        std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(limit)); eprintln!("check timed out: no verdict"); std::process::exit(3); });
        Self { id: id.into(), tier, seed, rule: rule.into(), assumptions: vec![], start: Instant::now(), stats: Stats::default(), violations: vec![],
            known, known_hit: BTreeMap::new(), replay, scale: 6, root, extra: serde_json::Map::new() }
    }
    pub fn assume(&mut self, a: &str) { self.assumptions.push(a.into()); }
    pub fn extra(&mut self, k: &str, v: Value) { self.extra.insert(k.into(), v); }
    /// How many times the counts named by the sub-checks are run (6 unless set); `VERIF_SCALE` overrides it.
    pub fn scale(&mut self, n: u64) { self.scale = std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(n); }
    pub fn seed(&self) -> u64 { self.seed }

    /// Runs `quick` (or `thorough`) generated cases of a sub-check.
    pub fn check(&mut self, sub: &str, quick: u64, thorough: u64, f: impl Fn(&mut Src) -> Result<Case, Fail> + Sync) {
        let f: &Prop = &f;
        if let Some((s, tape)) = &self.replay {
            if s == sub {
                crash::at(&self.id, sub, self.seed);
                let mut src = match tape { Tape::Choices(t) => Src::replay(t), Tape::Seed(s) => Src::random(*s) };
                match run_one(f, &mut src, 0) {
                    Ok(c) => println!("replay: passes: {}", c.sample),
                    Err(e) => { println!("replay: {}: {}", e.sig, e.msg); self.violations.push((sub.into(), e, src.used().to_vec())); }
                }
            }
            return;
        }
        // in-memory cases are cheap: run several times the count the sub-check names
        let n = if self.tier == Tier::Quick { quick } else { thorough } * if quick >= 1000 { self.scale } else { 1 };
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let merged = Mutex::new((Stats::default(), Vec::<(u64, Fail, Vec<u64>)>::new(), BTreeMap::<String, u64>::new()));
        let salt = hash(&(self.id.as_str(), sub, self.seed));
        let known = &self.known;
        let threads = if n < 64 { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) };
        crash::at(&self.id, sub, self.seed);
        let (next, first_bad, merged, known_) = (&next, &first_bad, &merged, known);
        std::thread::scope(|sc| {
            for k in 0..threads {
                sc.spawn(move || {
                    let known = known_;
                    crash::slot(k);
                    let mut st = Stats::default();
                    let mut bad = vec![];
                    let mut kh: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || i > first_bad.load(SeqCst) { break; }
                        let mut src = Src::random(hash(&(salt, i)));
                        match run_one(f, &mut src, i) {
                            Ok(c) => {
                                st.evaluations += 1;
                                if c.nontrivial { st.nontrivial.insert(hash(&src.tape)); }
                                for l in c.labels { *st.labels.entry(l).or_default() += 1; }
                                if c.nontrivial && i < 40 { st.samples.push((i, clip(&c.sample, 600))); }
                            }
                            Err(e) if known.iter().any(|(s, _)| *s == e.sig) => {
                                st.evaluations += 1;
                                *kh.entry(e.sig).or_default() += 1;
                            }
                            Err(e) => {
                                st.evaluations += 1;
                                bad.push((i, e, src.used().to_vec()));
                                first_bad.fetch_min(i, SeqCst);
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.evaluations += st.evaluations;
                    m.0.nontrivial.extend(st.nontrivial);
                    m.0.samples.extend(st.samples);
                    for (k, v) in st.labels { *m.0.labels.entry(k).or_default() += v; }
                    m.1.extend(bad);
                    for (k, v) in kh { *m.2.entry(k).or_default() += v; }
                });
            }
        });
        let (mut st, mut bad, kh) = std::mem::take(&mut *merged.lock().unwrap());
        st.samples.sort();
        self.stats.per.insert(sub.into(), (st.evaluations, st.nontrivial.len() as u64));
        self.stats.evaluations += st.evaluations;
        self.stats.nontrivial.extend(st.nontrivial.iter().map(|h| hash(&(sub, h))));
        self.stats.samples.extend(st.samples.into_iter().take(2).map(|(i, s)| (i, format!("{sub}: {s}"))));
        for (k, v) in st.labels { *self.stats.labels.entry(k).or_default() += v; }
        for (k, v) in kh { *self.known_hit.entry(k).or_default() += v; }
        bad.sort_by_key(|b| b.0);
        if let Some((i, e, tape)) = bad.into_iter().next() {
            let (e, tape) = shrink(f, i, e, tape, known);
            println!("{} {sub}: case {i} fails ({})\n{}", self.id, e.sig, clip(&e.msg, 4000));
            self.violations.push((sub.into(), e, tape));
        }
    }

    /// Records cases decided outside [`Suite::check`] (batches that go through a compiler, say).
    pub fn record(&mut self, sub: &str, evaluations: u64, nontrivial: &[u64], samples: Vec<String>) {
        self.stats.per.insert(sub.into(), (evaluations, nontrivial.len() as u64));
        self.stats.evaluations += evaluations;
        self.stats.nontrivial.extend(nontrivial.iter().map(|h| hash(&(sub, h))));
        self.stats.samples.extend(samples.into_iter().take(2).map(|s| (0, format!("{sub}: {}", clip(&s, 600)))));
    }
    /// Records a violation found outside [`Suite::check`].
    pub fn violation(&mut self, sub: &str, sig: &str, msg: String, tape: Vec<u64>) {
        if self.known.iter().any(|(s, _)| s == sig) { *self.known_hit.entry(sig.into()).or_default() += 1; return; }
        println!("{} {sub} fails ({sig})\n{}", self.id, clip(&msg, 4000));
        self.violations.push((sub.into(), Fail::new(sig, msg), tape));
    }
    pub fn replaying(&self) -> Option<(&str, &[u64])> { self.replay.as_ref().map(|(s, t)| (s.as_str(), match t { Tape::Choices(t) => t.as_slice(), Tape::Seed(_) => &[] })) }
    pub fn case_src(&self, sub: &str, i: u64) -> Src { Src::random(hash(&(hash(&(self.id.as_str(), sub, self.seed)), i))) }

    /// Demonstrates a recorded defect: `f` fails as long as it is there.
    pub fn known_probe(&mut self, f: impl Fn() -> Result<(), Fail>) {
        if self.replay.is_some() { return; }
        let r = match catch_unwind(AssertUnwindSafe(&f)) {
            Ok(r) => r,
            Err(_) => { let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default(); Err(Fail { sig: format!("panic:{}", m.lines().next().unwrap_or("")), msg: m }) }
        };
        if let Err(e) = r {
            if self.known.iter().any(|(s, _)| *s == e.sig) { *self.known_hit.entry(e.sig).or_default() += 1; }
            else { println!("{} fails ({})\n{}", self.id, e.sig, e.msg); self.violations.push(("probe".into(), e, vec![])); }
        }
    }

    /// Writes the evidence, prints the verdict and ends the process.
    pub fn finish(self) -> ! {
        if self.replay.is_some() { std::process::exit(i32::from(!self.violations.is_empty())); }
        for (sig, what) in &self.known {
            if self.known_hit.contains_key(sig) { println!("KNOWN-FINDING: property={} {what}", self.id); }
        }
        let mut cov = json!({
            "evaluations": self.stats.evaluations,
            "distinct_nontrivial": self.stats.nontrivial.len(),
            "rule": self.rule,
            "samples": self.stats.samples.iter().map(|s| &s.1).collect::<Vec<_>>(),
            "labels": self.stats.labels,
            "sub_checks": self.stats.per.iter().map(|(k, (e, n))| (k.clone(), json!({"evaluations": e, "distinct_nontrivial": n}))).collect::<serde_json::Map<_, _>>(),
        });
        if !self.known_hit.is_empty() { cov["excluded_known_findings"] = json!(self.known_hit); }
        for (k, v) in self.extra { cov[k] = v; }
        let ev = json!({
            "property": self.id, "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" }, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", self.root);
        std::fs::create_dir_all(format!("{dir}/replay")).expect("evidence dir");
        std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        if self.violations.is_empty() {
            println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", self.id, self.stats.evaluations, self.stats.nontrivial.len(), self.start.elapsed().as_secs_f64());
            std::process::exit(0);
        }
        for (sub, e, tape) in &self.violations {
            let path = format!("{dir}/replay/{}-{sub}.json", self.id);
            let v = json!({"property": self.id, "sub": sub, "seed": self.seed, "signature": e.sig, "message": e.msg, "tape": tape,
                "how": format!("bash run.sh {} replay {path}", self.id)});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay");
            println!("VIOLATION property={} replay={path}", self.id);
        }
        std::process::exit(1);
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.into() } else { s.chars().take(n).collect::<String>() + "…" }
}

/// Minimises a failing tape: the failure must keep its signature.
fn shrink(f: &Prop, case: u64, mut best_fail: Fail, mut best: Vec<u64>, known: &[(String, String)]) -> (Fail, Vec<u64>) {
    let start = Instant::now();
    let mut tries = 0u32;
    let mut attempt = |t: &[u64], best: &mut Vec<u64>, bf: &mut Fail| -> bool {
        tries += 1;
        if tries > 20_000 || start.elapsed() > Duration::from_secs(60) { return false; }
        let mut src = Src::replay(t);
        match run_one(f, &mut src, case) {
            Err(e) if e.sig == bf.sig && !known.iter().any(|(s, _)| *s == e.sig) => {
                let used = src.used().to_vec();
                let t = if used.len() <= t.len() { used } else { t.to_vec() };
                if (t.len(), &t) < (best.len(), best) { *best = t; *bf = e; true } else { false }
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        for w in [64, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + w <= best.len() {
                let mut t = best.clone();
                t.drain(i..i + w);
                if !attempt(&t, &mut best, &mut best_fail) { i += 1; }
            }
        }
        for w in [8, 4, 2, 1] {
            let mut i = 0;
            while i + w <= best.len() {
                if best[i..i + w].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..i + w].fill(0);
                    attempt(&t, &mut best, &mut best_fail);
                }
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if attempt(&t, &mut best, &mut best_fail) && i < best.len() { hi = mid.min(best[i]); } else { lo = mid + 1; }
            }
            i += 1;
        }
        if best == before { return (best_fail, best); }
    }
}
