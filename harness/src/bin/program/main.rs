//! Command queues and the command line program
mod cli;
mod model;
mod queue;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() == 2 && args[0] == "--run-queue" {
        std::process::exit(queue::run_queue(&args[1]));
    }
    d10_verif::engine::main_with(|id, _| {
        Some(match id {
            "C22" => queue::c22(),
            "C23" => cli::c23(),
            _ => return None,
        })
    });
}
