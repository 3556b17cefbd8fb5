//! C24: the boundary conditions of the Cairo AIR.
use engine::{cairo, report};
fn main() {
    cairo::functions();
    report::function("cairo::air::CairoAIR::boundary_constraints");
    report::bound("traces of 8, 16 and 64 rows with up to 63 steps, 0 to 3 program cells, with and without output segment and range-check builtin; all public values and challenges symbolic");
    cairo::boundaries("C24");
    report::finish()
}
