mod keys;
mod mdoc;
mod oidgen;
mod openid;
mod sha;
mod status;
mod vcgen;
mod w3c;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C13" => status::lists(),
        "C14" => status::credentials(),
        "C15" => w3c::proofs(),
        "C16" => w3c::model(),
        "C17" => openid::errors(),
        "C18" => openid::messages(),
        "C19" => openid::claims(),
        "C20" => mdoc::mdoc(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    }
}
