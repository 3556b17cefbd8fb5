//! C23: range checks in the Cairo AIR.
use engine::cairo::*;
use engine::must::{decide, Always};
use engine::{report, sym};
use std::rc::Rc;
fn main() {
    functions();
    report::function("cairo::air::CairoAIR::boundary_constraints");
    report::bound("two consecutive rows and all challenges symbolic; both layouts; whole traces of 2 rows with symbolic cells; boundary conditions of traces of 8, 16 and 64 rows");
    for b in [false, true] {
        let t = if b { " (with the range-check builtin)" } else { "" };
        coverage("C23", b);
        let a = aux(b);
        for k in 0..3 {
            for (j, what) in ["gap-free offsets", "permutation"].iter().enumerate() {
                sym::reset();
                forced(&format!("{} of step {}{}", what, k + 1, t), &["C23"], b, None, &|r, s| r.offsets(b, k, &challenges(s))[j].clone());
            }
        }
        if b {
            sym::reset();
            forced("chunks of the range-check builtin", &["C23"], b, None, &|r, _| r.chunks());
        }
        sym::reset();
        admitted(&format!("range-check constraints{}", t), b, None, &|v| belongs(v, "C23", b), &|r, s| {
            (0..3).all(|k| r.offsets(b, k, &challenges(s)).iter().all(|x| x.is_ok())) && (!b || r.chunks().is_ok())
        });
        sym::reset();
        let w = Whole { builtin: b, n: 2, steps: 1, program: 2, property: "C23", bounds: (7, 9) };
        let reached = std::cell::Cell::new(false);
        let total = |s: engine::must::Sym| -> Result<(), String> {
            let rows = w.rows(s, &a.rc_perm);
            if !w.holds(s, &rows) {
                return Ok(());
            }
            reached.set(true);
            let z = challenges(s).z_range_check;
            let (mut sorted, mut unsorted) = (one(), one());
            for r in &rows {
                for k in 0..3 {
                    sorted = sorted * (z - r[a.off[k]]);
                    unsorted = unsorted * (z - r[OFF[k]]);
                }
            }
            ok(sorted == unsorted, "the sorted offsets are not the offsets of the instructions")
        };
        decide(&Always {
            name: format!("the whole product{}", t),
            max_paths: 4000,
            known: Rc::new(|_| None),
            nonzero: vec![],
            run: &total,
            default: &|_| None,
        });
        report::witness("the whole product: some trace is admitted", reached.get());
    }
    boundaries("C23");
    report::finish()
}
