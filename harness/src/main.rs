//! Conformance harness for kdbx-rs: executes cases (one JSON object per line)
//! against the real library and records what happened, one JSON line per case.
//!
//! Usage: kvh <command> <cases.ndjson> <results.ndjson> [threads]

mod alloc;
mod arch;
mod chunkio;
mod codes;
mod dbjson;
mod dbops;
mod errors;
mod decode;
mod export;
mod misc;
mod newitems;
mod probe;
mod runner;
mod term;
mod tools;

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: kvh <command> <cases> <results> [threads]");
        std::process::exit(2);
    }
    let f: runner::CaseFn = match args[1].as_str() {
        "db" => dbops::run_case,
        "arch" => arch::run_case,
        "term" => term::run_case,
        "codec" => misc::run_codec,
        "otp" => misc::run_otp,
        "xml" => misc::run_xml,
        "export" => export::run_case,
        "new" => newitems::run_case,
        "codes" => codes::run_case,
        "errors" => errors::run_case,
        "fresh" => misc::run_fresh,
        "probe" => probe::run_case,
        "tools" => tools::run_case,
        other => {
            eprintln!("unknown command {}", other);
            std::process::exit(2);
        }
    };
    let threads = args.get(4).and_then(|t| t.parse().ok()).unwrap_or(8);
    runner::run(f, &args[2], &args[3], threads);
}
