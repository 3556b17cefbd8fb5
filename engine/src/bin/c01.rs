use engine::{report, vcheck, vspec::Kind};
fn main() {
    vcheck::main(&[Kind::Ood], false);
    report::finish()
}
