//! C10: the checked constructors of proof options.
use lambdaworks_math::field::fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::starks::proof::errors::InsecureOptionError;
use lambdaworks_stark::starks::proof::options::{ProofOptions, SecurityLevel};
use lambdaworks_stark::PrimeField;
use nd::{any, assume, reach};

crate::harnesses! {
    c10_conjectured, 34;
    c10_provable, 34;
    c10_small_fields, 34;
    c10_levels, 34;
}
#[derive(Clone, Debug)]
pub struct M249;
impl IsModulus<U256> for M249 {
    const MODULUS: U256 = U256::from_hex_unchecked("1000000000000000000000000000000000000000000000000000000000000a7");
}
type Narrow = U256PrimeField<M249>;
type Small = U64PrimeField<18446744069414584321>;

struct Args {
    blowup: u8,
    queries: usize,
    offset: u64,
    grinding: u8,
    target: u8,
}
fn args() -> Args {
    Args { blowup: any(), queries: any(), offset: any(), grinding: any(), target: any() }
}
/// log2, rounded down; a factor of zero or one has no redundancy.
fn bits(blowup: u8) -> u128 {
    let b = blowup as u128;
    if b >= 128 { 7 } else if b >= 64 { 6 } else if b >= 32 { 5 } else if b >= 16 { 4 } else if b >= 8 { 3 } else if b >= 4 { 2 } else if b >= 2 { 1 } else { 0 }
}
fn power(blowup: u8) -> bool {
    blowup & blowup.wrapping_sub(1) == 0
}
fn check(field_bits: u128, a: &Args, reached: bool, r: Result<ProofOptions, InsecureOptionError>) {
    let large = field_bits > a.target as u128 + 40;
    match r {
        Ok(o) => {
            assert!(large, "accepted although the field is too small");
            assert!(reached, "accepted although the options do not reach the target");
            assert!(
                o.blowup_factor == a.blowup && o.fri_number_of_queries == a.queries && o.coset_offset == a.offset
                    && o.grinding_factor == a.grinding,
                "the accepted options are not the arguments"
            );
        }
        Err(InsecureOptionError::FieldSize) => assert!(!large, "field size blamed although it suffices"),
        Err(InsecureOptionError::SecurityBits) => {
            assert!(large, "the field size is not checked first");
            // other blowup factors may be credited with fewer bits than their logarithm
            assert!(!reached || !power(a.blowup), "refused although the options reach the target");
        }
    }
}
/// queries * bits + grinding - 1 > target
fn conjectured(a: &Args) -> bool {
    bits(a.blowup) * a.queries as u128 + a.grinding as u128 > a.target as u128 + 1
}
/// queries * bits / 2 + grinding >= target
fn provable(a: &Args) -> bool {
    bits(a.blowup) * a.queries as u128 / 2 + a.grinding as u128 >= a.target as u128
}
pub fn c10_conjectured() {
    let a = args();
    let r = ProofOptions::new_with_checked_security::<PrimeField>(a.blowup, a.queries, a.offset, a.grinding, a.target);
    reach!(r.is_ok() && a.queries == 55 && a.blowup == 4, "the usual options");
    reach!(r.is_err() && a.blowup == 0, "no blowup");
    check(252, &a, conjectured(&a), r);
}
pub fn c10_provable() {
    let a = args();
    let r = ProofOptions::new_with_checked_provable_security::<PrimeField>(a.blowup, a.queries, a.offset, a.grinding, a.target);
    reach!(r.is_ok() && a.queries == 140 && a.blowup == 4, "the usual options");
    reach!(r.is_err() && a.blowup == 0, "no blowup");
    check(252, &a, provable(&a), r);
}
/// The field bound, for fields of 249 and 64 bits.
pub fn c10_small_fields() {
    let a = args();
    assume(power(a.blowup));
    let r = ProofOptions::new_with_checked_security::<Narrow>(a.blowup, a.queries, a.offset, a.grinding, a.target);
    reach!(r.is_ok() && a.target == 208, "the highest target");
    check(249, &a, conjectured(&a), r);
    let r = ProofOptions::new_with_checked_security::<Small>(a.blowup, a.queries, a.offset, a.grinding, a.target);
    reach!(r.is_ok(), "a low target");
    check(64, &a, conjectured(&a), r);
    let r = ProofOptions::new_with_checked_provable_security::<Small>(a.blowup, a.queries, a.offset, a.grinding, a.target);
    check(64, &a, provable(&a), r);
}
/// The predefined levels reach what their names say, for every coset offset.
pub fn c10_levels() {
    let offset: u64 = any();
    let k: u8 = any();
    assume(k < 6);
    let (level, target) = match k {
        0 => (SecurityLevel::Conjecturable80Bits, 80),
        1 => (SecurityLevel::Conjecturable100Bits, 100),
        2 => (SecurityLevel::Conjecturable128Bits, 128),
        3 => (SecurityLevel::Provable80Bits, 80),
        4 => (SecurityLevel::Provable100Bits, 100),
        _ => (SecurityLevel::Provable128Bits, 128),
    };
    let o = ProofOptions::new_secure(level, offset);
    assert!(o.coset_offset == offset, "the offset is not the argument");
    let a = Args { blowup: o.blowup_factor, queries: o.fri_number_of_queries, offset, grinding: o.grinding_factor, target };
    assert!(power(a.blowup), "a blowup factor that is no power of two");
    assert!(if k < 3 { conjectured(&a) } else { provable(&a) }, "a level does not reach its number of bits");
    reach!(k == 5, "the last level");
}
