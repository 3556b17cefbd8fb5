//! C21: result and opcode semantics in the Cairo AIR.
use engine::cairo::*;
use engine::{report, sym};
fn main() {
    functions();
    report::bound("every flag combination that encodes an instruction (thorough: in both layouts); all other cells of two consecutive rows and all challenges symbolic; rows with selector 1");
    for b in [false, true] {
        let t = if b { " (with the range-check builtin)" } else { "" };
        coverage("C21", b);
        let step = if engine::thorough() || !b { 1 } else { 7 };
        for f in instructions().iter().step_by(step) {
            sym::reset();
            forced(&format!("instruction flags {:015b}{}", f, t), &["C19", "C20", "C21"], b, Some(*f), &|r, _| r.arithmetic(*f));
            admitted(&format!("instruction flags {:015b}{}", f, t), b, Some(*f), &|v| belongs(v, "C21", b), &|r, _| {
                r.machine(*f).is_ok() && r.arithmetic(*f).is_ok() && r.hint(*f)
            });
        }
    }
    report::finish()
}
