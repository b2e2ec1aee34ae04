use std::collections::{HashMap, HashSet};

use pbt::{ensure, Case, Suite};
use vercre_core::gen;

use crate::sha::unb64;

type G = (&'static str, fn() -> String);
const TOKENS: &[G] = &[
    ("auth_code", gen::auth_code), ("issuer_state", gen::issuer_state), ("nonce", gen::nonce), ("notification_id", gen::notification_id),
    ("uri_token", gen::uri_token), ("token", gen::token), ("transaction_id", gen::transaction_id),
];

pub fn gens() -> ! {
    let mut su = Suite::new("C05", "every kind of generated value drawn in interleaved order from many generator states; non-trivial: at least two kinds drawn in one history, or a statistics block of 2,000 values of one kind");
    su.scale(60);
    su.assume("statistical thresholds are at least six standard deviations from the expectation of a uniform generator; the generator's quality itself (fastrand) is trusted");
    su.check("histories", 3_000, 60_000, |s| {
        fastrand::seed(s.raw());
        let mut seen: HashSet<String> = HashSet::new();
        let mut kinds = HashSet::new();
        // no value is another one's characters in another order, nor shares a run of ten of them with it
        let (mut bags, mut runs): (HashSet<Vec<u8>>, HashSet<Vec<u8>>) = (HashSet::new(), HashSet::new());
        for _ in 0..s.size(2, 60) {
            let i = s.size(0, TOKENS.len());
            kinds.insert(i);
            if i == TOKENS.len() {
                let t = gen::tx_code();
                ensure!(t.len() == 6 && t.bytes().all(|b| b.is_ascii_digit()), "tx_code", "transaction code {t:?} is not six digits");
                continue;
            }
            let (name, f) = TOKENS[i];
            let v = f();
            ensure!(v.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_".contains(&b)), "alphabet", "{name} {v:?} is not URL safe");
            let raw = unb64(&v);
            ensure!(raw.as_ref().is_some_and(|r| r.len() >= 32), "length", "{name} {v:?} does not carry 32 characters of randomness");
            ensure!(seen.insert(v.clone()), "repeat", "{name}: {v} had been generated before");
            let raw = raw.unwrap_or_default();
            for w in raw.windows(10) { ensure!(runs.insert(w.to_vec()), "derived", "{name}: {v} repeats a part of a value generated before, or of itself: {:?}", String::from_utf8_lossy(w)); }
            let mut bag = raw;
            bag.sort_unstable();
            ensure!(bags.insert(bag), "derived", "{name}: {v} is made of the characters of a value generated before");
        }
        Ok(Case::new(kinds.len() > 1, format!("{} values, {} kinds", seen.len(), kinds.len())))
    });
    // a process that goes on for long
    su.check("long", 1, 8, |s| {
        let n = 250_000;
        fastrand::seed(s.raw());
        let k = s.size(0, TOKENS.len() - 1);
        let mut seen = HashSet::with_capacity(n);
        for i in 0..n {
            let (name, f) = TOKENS[if i % 16 == 15 { i / 16 % TOKENS.len() } else { k }];
            ensure!(seen.insert(f()), "repeat", "{name}: after {i} values one is repeated");
        }
        Ok(Case::new(true, format!("{n} values, mostly {}", TOKENS[k].0)))
    });
    // no first, middle or last three digits of a transaction code are left out or favoured
    su.check("pins", 2, 24, |s| {
        const N: usize = 200_000;
        fastrand::seed(s.raw());
        let mut h = vec![[0u32; 1_000]; 4];
        for _ in 0..N {
            let t = gen::tx_code();
            ensure!(t.len() == 6 && t.bytes().all(|b| b.is_ascii_digit()), "tx_code", "transaction code {t:?} is not six digits");
            let d: Vec<usize> = t.bytes().map(|b| usize::from(b - b'0')).collect();
            for (p, h) in h.iter_mut().enumerate() { h[d[p] * 100 + d[p + 1] * 10 + d[p + 2]] += 1; }
        }
        for (p, h) in h.iter().enumerate() {
            for (v, c) in h.iter().enumerate() {
                // 200 expected, standard deviation 14
                ensure!((80..=340).contains(c), "pin-digits", "transaction codes: digits {p} to {} are {v:03} {c} times in {N}", p + 2);
            }
        }
        Ok(Case::new(true, format!("{N} transaction codes")))
    });
    // fresh threads and fresh processes must not repeat one another
    su.check("threads", 8, 64, |s| {
        let per = s.size(5, 40);
        let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || draw(per))).collect();
        let all: Vec<String> = hs.into_iter().flat_map(|h| h.join().expect("drawing threads end")).collect();
        let n = all.len();
        let set: HashSet<String> = all.into_iter().collect();
        ensure!(set.len() == n, "repeat-threads", "{} of {n} values drawn in eight threads are repeats", n - set.len());
        Ok(Case::new(true, format!("8 threads, {n} values")))
    });
    su.check("processes", 6, 24, |s| {
        let per = s.size(5, 20);
        let mut set = HashSet::new();
        let mut n = 0;
        for _ in 0..4 {
            let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("draw").arg(per.to_string()).output().expect("child");
            for l in String::from_utf8_lossy(&out.stdout).lines() { n += 1; set.insert(l.to_string()); }
        }
        ensure!(n == 4 * per * (TOKENS.len() + 1), "children", "children drew {n} values");
        ensure!(set.len() == n, "repeat-processes", "{} of {n} values drawn in four processes are repeats", n - set.len());
        Ok(Case::new(true, format!("4 processes, {n} values")))
    });
    // statistics: no position is constant or biased, no two positions move together
    su.check("uniform", 64, 400, |s| {
        fastrand::seed(s.raw());
        let i = s.size(0, TOKENS.len());
        const N: usize = 2_000;
        let (name, vals): (&str, Vec<Vec<u8>>) = if i == TOKENS.len() { ("tx_code", (0..N).map(|_| gen::tx_code().into_bytes()).collect()) }
            else { (TOKENS[i].0, (0..N).map(|_| unb64(&TOKENS[i].1()).unwrap_or_default()).collect()) };
        let len = vals.iter().map(Vec::len).min().unwrap_or(0);
        ensure!(len >= if name == "tx_code" { 6 } else { 32 }, "length", "{name} is {len} long");
        for p in 0..len {
            let mut h: HashMap<u8, usize> = HashMap::new();
            for v in &vals { *h.entry(v[p]).or_default() += 1; }
            let (k, need) = if name == "tx_code" { (10, 10) } else { (h.len(), 40) };
            ensure!(h.len() >= need, "symbols", "{name}: position {p} takes only {} values in {N}", h.len());
            let exp = N as f64 / k as f64;
            let limit = exp + 7.0 * exp.sqrt() + 5.0;
            let (b, c) = h.iter().max_by_key(|e| e.1).unwrap();
            ensure!((*c as f64) < limit, "biased", "{name}: position {p} is {:?} {c} times in {N}", *b as char);
        }
        // no two positions of a value, and no position of successive values, move together
        let mut code = [0usize; 256];
        let mut k = 0;
        for v in &vals { for b in v { if code[*b as usize] == 0 { k += 1; code[*b as usize] = k; } } }
        let pairs = (0..len).flat_map(|p| (0..=p).map(move |q| (p, q)));
        for (p, q) in pairs {
            let mut n = vec![0u32; (k + 1) * (k + 1)];
            let mut total = 0usize;
            for (i, v) in vals.iter().enumerate() {
                // p == q: this value and the one before
                let w = if p == q { if i == 0 { continue } else { &vals[i - 1] } } else { v };
                n[code[v[p] as usize] * (k + 1) + code[w[q] as usize]] += 1;
                total += 1;
            }
            let coll: f64 = n.iter().map(|c| f64::from(*c) * (f64::from(*c) - 1.0) / 2.0).sum();
            let exp = (total * (total - 1)) as f64 / 2.0 / (k * k) as f64;
            // the variance of the number of coinciding pairs is at most exp plus the bias allowed above
            ensure!(coll < exp * 1.25 + 9.0 * exp.sqrt(), "correlated", "{name}: positions {q} and {p}{} are not independent: {coll} coincidences, {exp:.0} expected", if p == q { " (of successive values)" } else { "" });
        }
        let distinct: HashSet<&Vec<u8>> = vals.iter().collect();
        ensure!(distinct.len() >= if name == "tx_code" { 1_950 } else { N }, "repeat", "{name}: {} distinct values in {N}", distinct.len());
        Ok(Case::new(true, format!("{name}: {N} values, {} distinct", distinct.len())))
    });
    su.finish()
}

/// `n` values of each kind (and code verifiers).
pub fn draw(n: usize) -> Vec<String> {
    (0..n).flat_map(|_| TOKENS.iter().map(|(_, f)| f()).chain(std::iter::once(vercre_core::pkce::code_verifier())).collect::<Vec<_>>()).collect()
}
