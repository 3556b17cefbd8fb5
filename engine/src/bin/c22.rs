//! C22: memory in the Cairo AIR.
use engine::cairo::*;
use engine::must::{decide, Always};
use engine::{prf_fe, report, sym};
use std::rc::Rc;
fn main() {
    report::patient();
    functions();
    report::function("cairo::air::CairoAIR::boundary_constraints");
    report::bound("two consecutive rows and all challenges symbolic; both layouts; whole traces of 2 rows with symbolic cells; boundary conditions of traces of 8, 16 and 64 rows");
    for b in [false, true] {
        let t = if b { " (with the range-check builtin)" } else { "" };
        coverage("C22", b);
        let a = aux(b);
        for k in 0..4 {
            for (j, what) in ["continuity", "single values", "permutation"].iter().enumerate() {
                sym::reset();
                forced(&format!("{} of step {}{}", what, k + 1, t), &["C22"], b, None, &|r, s| r.memory(b, k, &challenges(s))[j].clone());
            }
        }
        sym::reset();
        admitted(&format!("memory constraints{}", t), b, None, &|v| belongs(v, "C22", b), &|r, s| {
            (0..4).all(|k| r.memory(b, k, &challenges(s)).iter().all(|x| x.is_ok()))
        });
        for first in [true, false] {
            sym::reset();
            let w = Whole { builtin: b, n: 2, steps: 1, program: 2, property: "C22", bounds: (7, 9) };
            let reached = std::cell::Cell::new(false);
            // challenges and public memory are arbitrary constants here, which keeps the products linear
            let total = |s: engine::must::Sym| -> Result<(), String> {
                let fixed = |x: &str| if x.starts_with('t') { s(x) } else { prf_fe(x, 0) };
                let s: engine::must::Sym = &fixed;
                let mut rows = w.rows(s, &a.perm);
                // continuity has its own obligations: one address, one value in every sorted cell
                for r in rows.iter_mut() {
                    for k in 0..4 {
                        r[a.addr[k]] = s("address");
                        r[a.value[k]] = s("value");
                    }
                }
                let ch = challenges(s);
                let cell = |x, y| ch.z_memory - (x + ch.alpha_memory * y);
                if first && rows[0][a.perm[0]] * cell(rows[0][a.addr[0]], rows[0][a.value[0]]) != cell(rows[0][ADDR[0]], rows[0][VALUE[0]]) {
                    return Ok(());
                }
                if !w.holds(s, &rows) {
                    return Ok(());
                }
                reached.set(true);
                let (mut sorted, mut unsorted) = (permutation_total(&w.public(s), &ch), one());
                for r in &rows {
                    for k in 0..4 {
                        sorted = sorted * cell(r[a.addr[k]], r[a.value[k]]);
                        unsorted = unsorted * cell(r[ADDR[k]], r[VALUE[k]]);
                    }
                }
                ok(sorted == unsorted, "the sorted cells are not the accessed cells and the public memory")
            };
            decide(&Always {
                name: format!("{}{}", if first { "the whole product, from the right first cell" } else { "the whole product" }, t),
                max_paths: 4000,
                known: Rc::new(|_| None),
                nonzero: vec![],
                run: &total,
                default: &|_| None,
            });
            report::witness("the whole product: some trace is admitted", reached.get());
        }
    }
    boundaries("C22");
    report::finish()
}
