//! replay <harness> : reads one value per line (decimal bytes, little endian) from standard input.
//! Exit 0: the harness passes on these values.  1: it fails.  3: an assumption is not met.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    use std::io::BufRead;
    let name = std::env::args().nth(1).unwrap();
    let values: Vec<Vec<u8>> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.unwrap().split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect();
    let (_, f) = harness::all().into_iter().find(|h| h.0 == name).expect("no such harness");
    unsafe { sha3::uninterpreted::ON = true };
    nd::install(values);
    std::process::exit(match std::panic::catch_unwind(f) {
        Ok(()) => 0,
        Err(e) if e.is::<nd::Unmet>() => 3,
        Err(_) => 1,
    })
}
