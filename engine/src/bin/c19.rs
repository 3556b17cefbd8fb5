//! C19: the instruction constraints of the Cairo AIR.
use engine::cairo::*;
use engine::{report, sym};
fn main() {
    functions();
    report::bound("two consecutive rows and all challenges symbolic; both layouts (with and without the range-check builtin); rows with selector 1");
    for b in [false, true] {
        let t = if b { " (with the range-check builtin)" } else { "" };
        coverage("C19", b);
        for i in 0..16 {
            sym::reset();
            forced(&format!("flag cell {}{}", i, t), &["C19"], b, None, &|r, _| {
                let f = r.r[0][i];
                ok(f == zero() || i < 15 && f == one(), "the flag cell is legal")
            });
        }
        sym::reset();
        forced(&format!("instruction word{}", t), &["C19"], b, None, &|r, _| {
            if r.r[0][SELECTOR] != one() {
                return Ok(());
            }
            r.word()
        });
        for i in 0..16 {
            sym::reset();
            admitted(&format!("flag cell {}{}", i, t), b, None, &|v| cells(v) == [(false, i)], &|r, _| r.r[0][i] == zero() || i < 15 && r.r[0][i] == one());
        }
        sym::reset();
        admitted(&format!("instruction word{}", t), b, None, &|v| belongs(v, "C19", b) && !(0..16).any(|i| cells(v) == [(false, i)]), &|r, _| r.word().is_ok());
        // the same for every instruction at once, each demand and constraint together
        let all = instructions();
        let step = if engine::thorough() { 1 } else { 16 };
        for f in all.iter().step_by(step) {
            sym::reset();
            admitted(&format!("instruction flags {:015b}{}", f, t), b, Some(*f), &|v| belongs(v, "C19", b), &|r, _| r.decoding().is_ok());
        }
    }
    report::finish()
}
