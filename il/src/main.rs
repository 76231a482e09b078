//! Explores the thread interleavings of the library's real source, built over controlled synchronisation primitives.
#[allow(dead_code)]
#[path = "../../mc/src/entries.rs"]
mod entries;
#[allow(dead_code)]
#[path = "../../mc/src/lift.rs"]
mod lift;
mod programs;
mod run;
mod search;
#[allow(dead_code)]
#[path = "../../mc/src/t.rs"]
mod t;

#[global_allocator]
static HEAP: mcstd::world::Heap = mcstd::world::Heap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    std::process::exit(match arg(1) {
        "check" => search::check(arg(2) == "thorough"),
        "replay" => search::replay(arg(2)),
        "size" => {
            search::sizes(arg(2) == "thorough", arg(3).parse().unwrap_or(1));
            0
        }
        "alone" => {
            search::alone();
            0
        }
        "programs" => {
            for (b, p) in programs::programs(arg(2) == "thorough") {
                println!("{} {}", b, p.show());
            }
            0
        }
        _ => {
            eprintln!("usage: check TIER | replay FILE | programs TIER");
            2
        }
    })
}
