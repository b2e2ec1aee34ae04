mod dynval;
mod gens;
mod pkce;
mod quota;
mod sha;
mod url;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => url::roundtrip(),
        "C02" => url::wire(),
        "C03" => url::decode(),
        "C04" => pkce::pkce(),
        "C05" => gens::gens(),
        "draw" => for v in gens::draw(std::env::args().nth(2).and_then(|n| n.parse().ok()).unwrap_or(1)) { println!("{v}"); },
        "verifiers" => for _ in 0..std::env::args().nth(2).and_then(|n| n.parse().ok()).unwrap_or(1) { println!("{}", vercre_core::pkce::code_verifier()); },
        "C06" => quota::quota(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    }
}
