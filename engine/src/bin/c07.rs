//! C07: the verifier accepts the prover's proof of every satisfying trace.
use engine::hair::*;
use engine::must::{always, Sym};
use engine::vspec::Kind;
use engine::{c, report, sym, vcheck, F, FE};
use lambdaworks_stark::starks::example::{
    dummy_air::{self, DummyAIR}, fibonacci_2_columns::{self, Fibonacci2ColsAIR}, fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air::{self, QuadraticAIR, QuadraticPublicInputs}, simple_fibonacci::{self, FibonacciAIR, FibonacciPublicInputs},
};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::{prover::prove, verifier::verify};

fn opts(blowup: u8, queries: usize, offset: u64, grinding: u8) -> ProofOptions {
    ProofOptions { blowup_factor: blowup, fri_number_of_queries: queries, coset_offset: offset, grinding_factor: grinding }
}
fn round<A>(t: &lambdaworks_stark::starks::trace::TraceTable<F>, p: &A::PublicInputs, o: &ProofOptions) -> Result<(), String>
where
    A: lambdaworks_stark::starks::traits::AIR<Field = F> + Send + Sync,
    A::RAPChallenges: Send + Sync,
{
    let proof = prove::<F, A>(t, p, o).map_err(|e| format!("{:?}", e))?;
    if verify::<F, A>(&proof, p, o) {
        Ok(())
    } else {
        Err("the verifier rejects the prover's proof".into())
    }
}
fn main() {
    for f in ["starks::prover::prove and everything it calls", "starks::verifier::verify and everything it calls", "the example AIRs"] {
        report::function(f);
    }
    report::bound("harness AIR with symbolic public inputs (trace length 4; one symbolic input at length 8 and 16; zero inputs up to 512 rows), example AIRs with symbolic initial values at length 4-16; blowup 2 to 128; 1 to 300 queries; coset offsets up to 2^64-1; grinding 0 to 5");
    report::bound("eight further harness AIRs of other shapes (see the verifier's bounds) at length 4, 8 and 16");
    report::bound("the challenges are the Keccak hashes of the symbolic transcript: one instance per configuration; degenerate traces (constant and zero inputs) separately");
    let hair = |n: usize, o: ProofOptions, f: &'static dyn Fn(Sym) -> HPub| {
        sym::reset();
        always(&format!("harness AIR ({}) n={} {:?}", shape().name, n, o), &|s| {
            let p = f(s);
            round::<HAir>(&main_trace(n, &p), &p, &o)
        });
    };
    let all: &dyn Fn(Sym) -> HPub = &|s| HPub { a: s("a"), b: s("b"), c: s("c") };
    let one: &dyn Fn(Sym) -> HPub = &|s| HPub { a: s("a"), b: c(2), c: c(3) };
    let zero: &dyn Fn(Sym) -> HPub = &|_| HPub { a: c(0), b: c(0), c: c(0) };
    let unit: &dyn Fn(Sym) -> HPub = &|s| HPub { a: c(0), b: s("b"), c: c(0) };
    let leak = |f: &dyn Fn(Sym) -> HPub| -> &'static dyn Fn(Sym) -> HPub { unsafe { std::mem::transmute(f) } };
    let (all, one, zero, unit) = (leak(all), leak(one), leak(zero), leak(unit));
    // the composition polynomial of this AIR needs a blowup factor of at least 4
    hair(4, opts(4, 1, 3, 0), all);
    hair(4, opts(4, 3, 7, 1), all);
    hair(4, opts(8, 5, 5, 5), one);
    hair(8, opts(4, 2, 3, 1), one);
    for z in [zero, unit] {
        hair(4, opts(4, 2, 3, 1), z);
        hair(8, opts(8, 3, 7, 0), z);
    }
    hair(16, opts(4, 7, 3, 1), unit);
    hair(32, opts(4, 9, 3, 1), zero);
    // numbers that do not fit in a few bits: blowup factors, offsets, queries, rows
    hair(4, opts(128, 2, u64::MAX, 1), one);
    hair(4, opts(32, 3, 1 << 40, 1), one);
    hair(4, opts(4, 300, 3, 1), zero);
    hair(512, opts(4, 2, 3, 1), zero);
    for s in OTHERS {
        set_shape(s);
        hair(4, opts(4, 2, 3, 1), if s.cols < 4 { all } else { one });
        hair(8, opts(if s.bound == 1 { 2 } else { 4 }, 3, 7, 0), one);
        hair(16, opts(8, 4, 5, 1), zero);
    }
    set_shape(MIXED);
    let ns: &[usize] = if engine::thorough() { &[4, 8, 16, 32] } else { &[4, 8, 16] };
    for &n in ns {
        for o in [opts(2, 1, 3, 0), opts(4, 5, 7, 3)] {
            sym::reset();
            always(&format!("simple Fibonacci n={} {:?}", n, o), &|s| {
                let t = simple_fibonacci::fibonacci_trace([s("a0"), s("a1")], n);
                round::<FibonacciAIR<F>>(&t, &FibonacciPublicInputs { a0: s("a0"), a1: s("a1") }, &o)
            });
            sym::reset();
            always(&format!("two-column Fibonacci n={} {:?}", n, o), &|s| {
                let t = fibonacci_2_columns::fibonacci_trace_2_columns([s("a0"), s("a1")], n);
                round::<Fibonacci2ColsAIR<F>>(&t, &FibonacciPublicInputs { a0: s("a0"), a1: s("a1") }, &o)
            });
            if n <= 8 {
                sym::reset();
                always(&format!("quadratic n={} {:?}", n, o), &|s| {
                    let t = quadratic_air::quadratic_trace(s("a0"), n);
                    round::<QuadraticAIR<F>>(&t, &QuadraticPublicInputs { a0: s("a0") }, &o)
                });
            }
            sym::reset();
            always(&format!("dummy AIR n={} {:?}", n, o), &|_| {
                let t = dummy_air::dummy_trace::<F>(n);
                round::<DummyAIR>(&t, &(), &o)
            });
            // the number of steps need not be a power of two
            for steps in [n, n - 1, n / 2 + 1] {
                sym::reset();
                always(&format!("Fibonacci RAP steps={} {:?}", steps, o), &|_| {
                    let t = fibonacci_rap_trace([FE::one(), FE::one()], steps);
                    round::<FibonacciRAP<F>>(&t, &FibonacciRAPPublicInputs { steps, a0: FE::one(), a1: FE::one() }, &o)
                });
            }
        }
    }
    vcheck::main(&[], true);
    let _ = Kind::Ood;
    report::finish()
}
