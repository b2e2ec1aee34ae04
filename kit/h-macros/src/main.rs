//! Request macros: batches of generated invocations go through the compiler and, when they must
//! compile, are run and compared with the JSON they were written as.
mod cases;

use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::path::PathBuf;
use std::process::Command;

use cases::{bad_call, call, Call, MACROS};
use pbt::{Src, Suite, Tier};
use serde_json::Value;

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }
fn dir(id: &str) -> PathBuf { PathBuf::from(format!("{}/kit/target/gen-{id}", root())) }

/// Writes the generated crate; returns for every line the case it belongs to.
fn write(id: &str, bodies: &[(usize, String)]) -> Vec<Option<usize>> {
    let d = dir(id);
    std::fs::create_dir_all(d.join("src")).expect("scratch crate");
    std::fs::write(d.join("Cargo.toml"), "[package]\nname = \"gen\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nserde_json = { version = \"1\", features = [\"alloc\"] }\nvercre-issuer = { path = \"/repo/vercre-issuer\" }\nvercre-macros = { path = \"/repo/crates/macros\" }\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 1\n").unwrap();
    std::fs::copy(format!("{}/kit/h-macros/gen.lock", root()), d.join("Cargo.lock")).expect("lock file");
    let mut src = String::from("#![allow(warnings)]\nuse vercre_macros::*;\n");
    let mut lines = vec![None; 3];
    for (i, b) in bodies {
        src += &format!("fn c{i}() -> serde_json::Value {b}\n");
        for _ in 0..=b.matches('\n').count() { lines.push(Some(*i)); }
    }
    src += "fn main() {\n";
    for (i, _) in bodies { src += &format!("println!(\"{i} {{}}\", c{i}());\n"); }
    src += "}\n";
    std::fs::write(d.join("src/main.rs"), src).unwrap();
    lines
}
#[derive(Default)]
struct Built { ok: bool, hung: bool, halved: bool, errors: BTreeMap<usize, String>, text: String }
fn cargo(id: &str, bodies: &[(usize, String)], limit: u64) -> Built {
    let lines = write(id, bodies);
    let _ = std::fs::remove_file(format!("{}/kit/target/debug/gen", root()));
    let out = Command::new("timeout").current_dir(dir(id)).args(["-k", "5", &limit.to_string(), "cargo", "build", "-q", "--offline", "--message-format=json", "--target-dir"]).arg(format!("{}/kit/target", root()))
        .output().expect("cargo");
    let mut b = Built { ok: out.status.success(), hung: matches!(out.status.code(), Some(124 | 137)), ..Built::default() };
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" { continue; }
        let text = v["message"]["message"].as_str().unwrap_or("").to_string();
        let mine = v["target"]["name"] == "gen";
        let case = v["message"]["spans"].as_array().into_iter().flatten().filter(|s| mine && s["file_name"].as_str().is_some_and(|f| f.ends_with("main.rs")))
            .find_map(|s| lines.get(s["line_start"].as_u64().unwrap_or(0) as usize).copied().flatten());
        match case { Some(c) => { b.errors.entry(c).or_insert(text); } None => if !text.starts_with("aborting due to") { b.text += &text; b.text.push('\n'); } }
    }
    b.text += &String::from_utf8_lossy(&out.stderr);
    b
}
/// Builds a batch. An error that names no case (a compiler that crashes or does not end, say) is traced to one by halving.
fn compile(id: &str, bodies: &[(usize, String)]) -> Built {
    let b = cargo(id, bodies, 300);
    if b.ok || !b.errors.is_empty() { return b; }
    let empty = cargo(id, &[], 300);
    if !empty.ok {
        eprintln!("{}\nthe crates the macros expand to do not build", empty.text);
        std::process::exit(2);
    }
    let mut part = bodies.to_vec();
    let mut last = b;
    while part.len() > 1 {
        let half = part.split_off(part.len() / 2);
        let r = cargo(id, &part, 60);
        if !r.errors.is_empty() { return Built { ok: false, ..r }; }
        if r.ok { part = half; } else { last = r; }
    }
    let why = if last.hung { "the compiler does not end".to_string() } else { last.text.lines().take(3).collect::<Vec<_>>().join(" ") };
    Built { halved: true, errors: part.first().map(|(i, _)| (*i, why)).into_iter().collect(), ..last }
}
fn run_bin(id: &str) -> BTreeMap<usize, Value> {
    let _ = id;
    let out = Command::new("timeout").args(["60"]).arg(format!("{}/kit/target/debug/gen", root())).output().expect("run");
    String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| { let (i, v) = l.split_once(' ')?; Some((i.parse().ok()?, serde_json::from_str(v).ok()?)) }).collect()
}
/// Judges a batch of invocations that must compile: case -> (signature, message).
fn judge_good(id: &str, calls: &[(usize, Call)]) -> BTreeMap<usize, (String, String)> {
    let mut bad = BTreeMap::new();
    let mut todo: Vec<(usize, String)> = calls.iter().map(|(i, c)| (*i, c.code())).collect();
    loop {
        if todo.is_empty() { return bad; }
        let b = compile(id, &todo);
        if b.ok { break; }
        for (i, e) in &b.errors {
            let c = &calls.iter().find(|c| c.0 == *i).unwrap().1;
            bad.insert(*i, (if b.halved { "compiler-fails".into() } else { format!("refused-{}", c.mac) }, format!("does not compile ({e}): {}", c.code())));
        }
        if b.halved { return bad; }
        todo.retain(|(i, _)| !b.errors.contains_key(i));
    }
    let got = run_bin(id);
    for (i, c) in calls {
        if bad.contains_key(i) { continue; }
        match got.get(i) {
            Some(v) if *v == c.want => {}
            v => { bad.insert(*i, (format!("value-{}", c.mac), format!("{}\n   got: {}\n  want: {}", c.code(), v.map_or("nothing (panic)".into(), Value::to_string), c.want))); }
        }
    }
    bad
}
fn judge_bad(id: &str, calls: &[(usize, Call, String)]) -> BTreeMap<usize, (String, String)> {
    let mut todo: Vec<(usize, String)> = calls.iter().map(|(i, c, _)| (*i, c.code())).collect();
    loop {
        if todo.is_empty() { break; }
        let b = compile(id, &todo);
        if b.ok { break; }
        // refusing is not bringing the compiler down
        if let (true, Some((i, e))) = (b.halved, b.errors.iter().next()) { let c = calls.iter().find(|c| c.0 == *i).unwrap(); return [(*i, ("compiler-fails".to_string(), format!("the compiler is brought down ({e}) by ({}): {}", c.2, c.1.code())))].into(); }
        todo.retain(|(i, _)| !b.errors.contains_key(i));
    }
    todo.into_iter().map(|(i, code)| { let c = calls.iter().find(|c| c.0 == i).unwrap(); (i, (format!("accepted-{}", c.1.mac), format!("compiles although it is malformed ({}): {code}", c.2))) }).collect()
}
fn hash(t: &str) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// Shrinks through the compiler: each round tries many smaller tapes in one batch.
fn shrink(judge: &dyn Fn(&[Vec<u64>]) -> Vec<Option<(String, String)>>, mut tape: Vec<u64>, mut fail: (String, String)) -> (Vec<u64>, (String, String)) {
    for _ in 0..12 {
        let mut cand: Vec<Vec<u64>> = vec![];
        for w in [16, 8, 4, 2, 1] { for i in (0..tape.len().saturating_sub(w - 1)).step_by(1.max(w / 2)) { let mut t = tape.clone(); t.drain(i..i + w); cand.push(t); } }
        for w in [8, 1] { for i in (0..tape.len().saturating_sub(w - 1)).step_by(w) { if tape[i..i + w].iter().any(|x| *x != 0) { let mut t = tape.clone(); t[i..i + w].fill(0); cand.push(t); } } }
        let mut seen = HashSet::new();
        cand.retain(|c| seen.insert(c.clone()));
        cand.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
        cand.truncate(160);
        let r = judge(&cand);
        let Some((t, f)) = cand.into_iter().zip(r).find_map(|(t, r)| r.filter(|f| f.0 == fail.0).map(|f| (t, f))) else { break };
        if (t.len(), &t) >= (tape.len(), &tape) { break; }
        tape = t;
        fail = f;
    }
    (tape, fail)
}

fn suite(id: &'static str, good: bool) -> ! {
    let mut su = Suite::new(id, if good {
        "invocations of the four request macros with generated members (literals, variables, constants, calls, references; any order; nested claims; several details, grants and ids), compiled against the real issuer types, run, and compared with the JSON they were written as; non-trivial: an optional member is present"
    } else {
        "well-formed invocations made malformed in one place (a required member dropped, an unexpected member added, a wrong grant, format, proof or detail), each of which the compiler must refuse; all are non-trivial"
    });
    su.assume("names and versions of the crates the macros expand to are the ones in the repository, built with the vendored stand-ins for crates that are not available offline");
    let per = match (su.tier, good) { (Tier::Quick, true) => 1600, (Tier::Quick, false) => 2000, _ => 400 };
    let rounds = if su.tier == Tier::Quick { 1 } else { 30 };
    let make = |src: &mut Src, which: usize| -> (Call, String) { if good { (call(src, which), String::new()) } else { bad_call(src, which) } };
    let judge = |which: usize, tapes: &[Vec<u64>]| -> Vec<Option<(String, String)>> {
        let calls: Vec<(usize, Call, String)> = tapes.iter().enumerate().map(|(i, t)| { let (c, w) = make(&mut Src::replay(t), which); (i, c, w) }).collect();
        let bad = if good { judge_good(id, &calls.iter().map(|(i, c, _)| (*i, c.clone())).collect::<Vec<_>>()) } else { judge_bad(id, &calls) };
        (0..tapes.len()).map(|i| bad.get(&i).cloned()).collect()
    };
    if let Some((sub, tape)) = su.replaying().map(|(s, t)| (s.to_string(), t.to_vec())) {
        if let Some(w) = MACROS.iter().position(|m| *m == sub) {
            match judge(w, &[tape.clone()]).remove(0) { Some((sig, msg)) => su.violation(&sub, &sig, msg, tape), None => println!("replay: passes") }
        }
        su.finish();
    }
    for r in 0..rounds {
        // one compilation for all four macros
        let mut all: Vec<(usize, Call, String)> = vec![];
        let mut tapes: Vec<(usize, Vec<u64>)> = vec![];
        for (w, m) in MACROS.iter().enumerate() {
            for i in 0..per {
                let mut src = su.case_src(m, r * per + i);
                let (c, why) = make(&mut src, w);
                all.push((all.len(), c, why));
                tapes.push((w, src.tape().to_vec()));
            }
        }
        let bad = if good { judge_good(id, &all.iter().map(|(i, c, _)| (*i, c.clone())).collect::<Vec<_>>()) } else { judge_bad(id, &all) };
        for (w, m) in MACROS.iter().enumerate() {
            let mine: Vec<&(usize, Call, String)> = all.iter().filter(|c| tapes[c.0].0 == w).collect();
            let non: Vec<u64> = mine.iter().filter(|c| !good || c.1.fields.len() > 3).map(|c| hash(&c.1.code())).collect();
            su.record(&format!("{m}{}", if r == 0 { String::new() } else { format!("-{r}") }), mine.len() as u64, &non, mine.iter().take(1).map(|c| format!("{} {}", c.2, c.1.code())).collect());
            if let Some((i, f)) = bad.iter().find(|(i, _)| tapes[**i].0 == w) {
                let (tape, f) = if f.0 == "compiler-fails" { (tapes[*i].1.clone(), f.clone()) } else { shrink(&|t| judge(w, t), tapes[*i].1.clone(), f.clone()) };
                su.violation(m, &f.0, f.1, tape);
            }
        }
    }
    let _ = std::fs::remove_dir_all(dir(id));
    su.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C11") => suite("C11", true),
        Some("C12") => suite("C12", false),
        Some("warm") => { let b = compile("warm", &[(0, "{ serde_json::Value::Null }".into())]); let _ = std::fs::remove_dir_all(dir("warm")); std::process::exit(i32::from(!b.ok)) }
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    }
}
