use engine::{report, vcheck, vspec::Kind};
fn main() {
    vcheck::main(&[Kind::TraceOpening, Kind::CompositionOpening], false);
    report::finish()
}
