//! What a check did, written as one JSON object to the file named by RESULT (or stdout).
use serde_json::{json, Value};
use std::cell::RefCell;
use std::time::Instant;

#[derive(Default)]
pub struct Report {
    pub obligations: Vec<Value>,
    pub functions: Vec<String>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub queries: u64,
    pub solver_s: f64,
    pub paths: u64,
    pub witnesses: u64,
}
thread_local! {
    static R: RefCell<Report> = RefCell::new(Report::default());
}
pub fn with<T>(f: impl FnOnce(&mut Report) -> T) -> T {
    R.with(|r| f(&mut r.borrow_mut()))
}
pub fn function(f: &str) {
    with(|r| r.functions.push(f.to_string()))
}
pub fn bound(f: &str) {
    with(|r| r.bounds.push(f.to_string()))
}
pub fn assume(f: &str) {
    with(|r| r.assumptions.push(f.to_string()))
}
pub fn query(start: Instant) {
    with(|r| {
        r.queries += 1;
        r.solver_s += start.elapsed().as_secs_f64();
    })
}
pub fn discharged(name: &str, detail: impl Into<Value>) {
    obligation(name, "discharged", detail)
}
/// A counterexample which was replayed against the real code.
pub fn violated(name: &str, detail: impl Into<Value>) {
    obligation(name, "violated", detail)
}
pub fn inconclusive(name: &str, detail: impl Into<Value>) {
    obligation(name, "inconclusive", detail)
}
pub fn obligation(name: &str, status: &str, detail: impl Into<Value>) {
    let d: Value = detail.into();
    if status != "discharged" || std::env::var("VERBOSE").is_ok() {
        eprintln!("[{}] {}: {}", status, name, d);
    }
    with(|r| r.obligations.push(json!({"name": name, "status": status, "detail": d})));
    if status == "violated" {
        write(); // survives an abort later on
        // the verdict is settled; the remaining obligations are not needed
        let n = with(|r| r.obligations.iter().filter(|o| o["status"] == "violated").count());
        if n >= 4 && !PATIENT.with(|p| p.get()) && std::env::var("ALL").is_err() {
            finish()
        }
    }
}
thread_local! {
    static PATIENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Go through all obligations, whatever fails (some failures are listed as known findings).
pub fn patient() {
    PATIENT.with(|p| p.set(true))
}
/// The check of a vacuity witness: the assumptions must be satisfiable.
pub fn witness(name: &str, ok: bool) {
    if ok {
        with(|r| r.witnesses += 1)
    } else {
        inconclusive(name, "vacuous: no witness reaches the assertion")
    }
}
/// Runs one obligation; a panic of the engine itself is reported as inconclusive.
pub fn guard(name: &str, f: impl FnOnce()) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    lambdaworks_math::sym::set_decide(None);
    lambdaworks_math::sym::set_concretize(None);
    lambdaworks_crypto::hooks::set_challenge(None);
    lambdaworks_crypto::hooks::set_merkle(None);
    if let Err(e) = r {
        inconclusive(name, panic_text(&e));
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}
fn write() {
    let v = with(|r| {
        json!({
            "obligations": r.obligations, "functions": r.functions, "bounds": r.bounds,
            "assumptions": r.assumptions, "queries": r.queries, "solver_s": r.solver_s,
            "paths": r.paths, "witnesses": r.witnesses, "identities": lambdaworks_math::sym::identities()
        })
    });
    let t = serde_json::to_string_pretty(&v).unwrap();
    match std::env::var("RESULT") {
        Ok(p) => std::fs::write(p, t).unwrap(),
        Err(_) => println!("{}", t),
    }
}
pub fn finish() -> ! {
    write();
    std::process::exit(0)
}
