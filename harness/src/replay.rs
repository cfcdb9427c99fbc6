//! Runs one harness natively on recorded inputs.
//! Exit code 0: the assertions hold; 1: one of them fails; 3: an assumption does not hold.
use orchard_verif::source::{ReplaySource, Vacuous};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&a[2]).expect("inputs");
    let name = a[1].clone();
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut s = ReplaySource { data, pos: 0 };
            assert!(orchard_verif::replay(&name, &mut s), "unknown harness");
        })
        .unwrap();
    match t.join() {
        Ok(()) => std::process::exit(0),
        Err(e) if e.is::<Vacuous>() => std::process::exit(3),
        Err(_) => std::process::exit(1),
    }
}
