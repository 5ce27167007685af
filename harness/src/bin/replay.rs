//! replay ENTRY PARAM INPUT-HEX ALLOC-LIMIT: runs one harness natively.
//! Exit 0 done, 10 check failed, 11 assumption not met, 12 allocation above the
//! limit, 101 panic.
use harness::sym;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = &a[3];
    let input: Vec<u8> = (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    let param: u64 = a[2].parse().unwrap();
    let limit: u64 = a[4].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.location().map(|l| l.to_string()).unwrap_or_default());
        std::process::exit(101);
    }));
    unsafe { sym::INPUT = input };
    sym::LIMIT.store(limit, std::sync::atomic::Ordering::Relaxed);
    if !harness::run(&a[1], param) {
        println!("NOENTRY");
        std::process::exit(13);
    }
    println!("DONE");
}
