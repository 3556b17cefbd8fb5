use engine::{report, vcheck, vspec::Kind};
fn main() {
    vcheck::main(&[Kind::Fold, Kind::FriOpening], false);
    report::finish()
}
