//! Runs a harness natively on given symbolic-input bytes.
use harness::sym;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).cloned().unwrap_or_default();
    let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    if a.len() == 2 && a[1] == "--list" {
        for (n, _) in harness::ROOTS.iter().chain(harness::HTTP) {
            println!("{n}");
        }
        return;
    }
    let f = harness::ROOTS.iter().chain(harness::HTTP).find(|r| r.0 == a[1]).expect("no such harness").1;
    let go = move || {
        sym::set_input(b.clone());
        f();
        let o = sym::observed();
        println!("REPLAY-OK {}", o.iter().map(|b| format!("{b:02x}")).collect::<String>());
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(go).unwrap().join().unwrap_or_else(|_| {
        println!("REPLAY-PANIC");
        std::process::exit(101)
    });
}
