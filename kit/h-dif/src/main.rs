mod cred;
mod filter;
mod jpath;
mod logic;
mod model;
mod re;
mod total;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C07" => logic::run(),
        "C08" => filter::run(),
        "C09" => total::run(),
        "C10" => model::run(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    }
}
