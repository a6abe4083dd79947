use std::process::exit;
use vharness::{mem, run};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| -> u64 { a[i].parse().expect("number") };
    match a.get(0).map(|s| &s[..]) {
        Some("run") => exit(run::run(&a[1])),
        Some("worker") => run::worker(&a[1], n(2), n(3), n(4), n(5), n(6), &a[7]),
        Some("one") => run::one(&a[1], &a[2]),
        Some("probe") => run::probe(&a[1]),
        Some("replay") => exit(run::replay(&a[1])),
        Some("list") => {
            for p in vharness::props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("vharness run ID | replay FILE | list");
            exit(2);
        }
    }
}
