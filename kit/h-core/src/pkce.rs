use std::collections::HashSet;

use pbt::{ensure, ensure_eq, gen, Case, Suite};
use vercre_core::pkce;

use crate::sha::{b64, sha256};

pub fn pkce() -> ! {
    let mut su = Suite::new("C04", "code challenges of arbitrary text of 0 to 300 (now and then 9,000) characters against an independent SHA-256/base64url, and code verifiers generated from many generator states, in long runs, threads and processes; non-trivial: verifier longer than one hash block or with non-alphanumeric characters, or a generated verifier");
    su.scale(240);
    assert_eq!(b64(&sha256(b"dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk")), "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM", "RFC 7636 appendix B");
    su.check("challenge", 20_000, 400_000, |s| {
        let v = match s.upto(4) {
            4 if s.chance(1, 20) => { let n = s.size(300, 9_000); gen::word(s, n, n) }
            0 => { let n = s.size(43, 128); (0..n).map(|_| *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~") as char).collect() }
            1 => gen::text(s, 300),
            2 => { let n = s.size(50, 70); "x".repeat(n) } // around the hash's block and padding boundaries
            _ => gen::ident(s),
        };
        let c = pkce::code_challenge(&v);
        ensure_eq!(c, b64(&sha256(v.as_bytes())), "challenge", "challenge of {v:?}");
        Ok(Case::new(v.len() > 55 || v.chars().any(|c| !c.is_ascii_alphanumeric()), format!("{v} -> {c}")))
    });
    su.check("distinct", 6_000, 100_000, |s| {
        // a different verifier never has the same challenge (one edit away)
        let v = gen::word(s, 43, 128);
        let i = s.size(0, v.len() - 1);
        let mut w: Vec<char> = v.chars().collect();
        match s.upto(3) { 0 => w[i] = if w[i] == 'a' { 'b' } else { 'a' }, 1 => { w.remove(i); } 2 => w.push('a'), _ => { w[i] = if w[i].is_ascii_lowercase() { w[i].to_ascii_uppercase() } else if w[i].is_ascii_uppercase() { w[i].to_ascii_lowercase() } else { '-' } } }
        let w: String = w.into_iter().collect();
        ensure!(w == v || pkce::code_challenge(&v) != pkce::code_challenge(&w), "collision", "{v} and {w} have the same challenge");
        Ok(Case::new(v != w, format!("{v} / {w}")))
    });
    su.check("verifier", 3_000, 60_000, |s| {
        fastrand::seed(s.raw());
        let n = s.size(2, 40);
        let mut seen = HashSet::new();
        let mut lens = HashSet::new();
        for _ in 0..n {
            let v = pkce::code_verifier();
            ensure!((43..=128).contains(&v.len()), "length", "verifier of {} characters: {v}", v.len());
            ensure!(v.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b)), "alphabet", "verifier outside the unreserved characters: {v:?}");
            let c = pkce::code_challenge(&v);
            ensure_eq!(c, b64(&sha256(v.as_bytes())), "challenge", "challenge of {v:?}");
            ensure!(seen.insert(v.clone()), "repeat", "the verifier {v} was generated twice");
            lens.insert(v.len());
        }
        Ok(Case::new(true, format!("{n} verifiers, {} lengths", lens.len())))
    });
    // a process that goes on for long: none repeats
    su.check("long", 2, 16, |s| {
        const N: usize = 60_000;
        fastrand::seed(s.raw());
        let mut seen = HashSet::with_capacity(N);
        let mut lens = HashSet::new();
        for i in 0..N {
            let v = pkce::code_verifier();
            ensure!((43..=128).contains(&v.len()), "length", "verifier of {} characters: {v}", v.len());
            ensure!(v.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b)), "alphabet", "verifier outside the unreserved characters: {v:?}");
            lens.insert(v.len());
            ensure!(seen.insert(v), "repeat", "after {i} code verifiers one is repeated");
        }
        Ok(Case::new(true, format!("{N} verifiers, {} lengths", lens.len())))
    });
    // fresh threads and fresh processes do not repeat one another
    su.check("threads", 8, 64, |s| {
        let per = s.size(5, 40);
        let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || (0..per).map(|_| pkce::code_verifier()).collect::<Vec<_>>())).collect();
        let all: Vec<String> = hs.into_iter().flat_map(|h| h.join().expect("drawing threads end")).collect();
        let n = all.len();
        let set: HashSet<String> = all.into_iter().collect();
        ensure!(set.len() == n, "repeat-threads", "{} of {n} code verifiers drawn in eight threads are repeats", n - set.len());
        Ok(Case::new(true, format!("8 threads, {n} verifiers")))
    });
    su.check("processes", 6, 24, |s| {
        let per = s.size(2, 20);
        let mut set = HashSet::new();
        let mut n = 0;
        for _ in 0..4 {
            let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("verifiers").arg(per.to_string()).output().expect("child");
            for l in String::from_utf8_lossy(&out.stdout).lines() { n += 1; set.insert(l.to_string()); }
        }
        ensure!(n == 4 * per, "children", "children drew {n} verifiers");
        ensure!(set.len() == n, "repeat-processes", "{} of {n} code verifiers drawn in four processes are repeats", n - set.len());
        Ok(Case::new(true, format!("4 processes, {n} verifiers")))
    });
    su.finish()
}
