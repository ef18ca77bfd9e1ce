//! P17 under Miri: data races, use after free and leaks are Miri's to report.
#[path = "../../harness/src/threads.rs"]
mod threads;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    for i in 0..n {
        println!("CASE {}", seed + i);
        let mut r = threads::R(seed + i);
        threads::case(r.next(), 2 + r.below(2), 6);
        threads::contend(r.next(), 2, 3);
    }
    println!("HELD");
}
