//! File formats
mod damage;
mod faults;
mod fmts;
mod foreign;
mod lossless;
mod lossy;
mod names;
mod padded;
mod writers;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| a.as_str()) == Some("--save-limited") && args.len() == 4 {
        std::process::exit(faults::save_limited(&args[1..]));
    }
    d10_verif::engine::main_with(|id, _| {
        Some(match id {
            "C16" => lossless::c16(),
            "C17" => lossy::c17(),
            "C18" => damage::c18(),
            "C20" => faults::c20(),
            "C21" => names::c21(),
            "C19" => foreign::c19(),
            _ => return None,
        })
    });
}
