use engine::{report, vcheck, vspec::Kind};
fn main() {
    vcheck::main(&[Kind::Deep], false);
    report::finish()
}
