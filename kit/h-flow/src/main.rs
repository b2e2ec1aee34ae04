mod issue;
#[path = "../../h-model/src/keys.rs"]
mod keys;
#[path = "../../h-model/src/mdoc.rs"]
mod mdoc;
#[path = "../../h-model/src/sha.rs"]
mod sha;
mod sim;
mod verif;
mod wallet;
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C21" => issue::run("C21"),
        "C22" => issue::run("C22"),
        "C23" => issue::run("C23"),
        "C24" => issue::run("C24"),
        "C25" => issue::run("C25"),
        "C26" => issue::run("C26"),
        "C27" => issue::run("C27"),
        "C28" => verif::run("C28"),
        "C29" => verif::run("C29"),
        "C30" => wallet::run_issuance(),
        "C31" => wallet::run_presentation(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    }
}
