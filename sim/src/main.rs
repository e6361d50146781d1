//! Deterministic simulation of lumberjack: driver, workers, replay.

mod ctx;
mod driver;
mod gen;
mod io;
mod model;
mod modelops;
mod observe;
mod props_cli;
mod props_det;
mod props_mem;
mod props_stream;
mod props_tree;
mod props_write;
mod registry;
mod run;
mod tape;
mod text;

#[global_allocator]
static HEAP: props_mem::Counting = props_mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    ctx::install_panic_hook();
    let code = match a.get(1).copied() {
        Some("check") if a.len() >= 3 => driver::check(a[2]),
        Some("worker") if a.len() == 8 => driver::worker(&a[2..]),
        Some("serve") if a.len() == 4 => driver::serve(a[2], a[3]),
        Some("replay") if a.len() == 3 => driver::replay(a[2]),
        Some("seed") if a.len() == 5 => driver::show_seed(a[2], a[3], a[4]),
        Some("determinism") if a.len() >= 4 => driver::determinism(a[2], a[3]),
        _ => {
            eprintln!("usage: sim check ID | replay FILE | seed ID SEED INDEX | determinism ID RUNS");
            2
        }
    };
    std::process::exit(code);
}
